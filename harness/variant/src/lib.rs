//! One build of the code under test behind a C interface: takes a request, runs it through the public API,
//! reports what happened. All panics are caught and reported.
use jpeg_encoder::{
    ColorType, Density, Encoder, EncodingError, ImageBuffer, JfifWrite, JpegColorType, QuantizationTableType,
    SamplingFactor,
};
use std::cell::{Cell, RefCell};
use std::os::raw::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Once;
use vcore::case::*;

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static HOOK: Once = Once::new();

fn init() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        }));
    });
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Outcome> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Outcome::Panic(LAST_PANIC.with(|p| p.borrow().clone())))
}

// ---------------------------------------------------------------- value mapping

fn sampling(i: u8) -> SamplingFactor {
    use SamplingFactor::*;
    [
        F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1,
        R_4_1_1, R_4_1_0,
    ][i as usize]
}

fn sampling_index(s: SamplingFactor) -> u8 {
    (0..16).find(|i| sampling(*i) == s).unwrap_or(255)
}

fn color(i: u8) -> ColorType {
    use ColorType::*;
    [Luma, Rgb, Rgba, Bgr, Bgra, Ycbcr, Cmyk, CmykAsYcck, Ycck][i as usize]
}

fn jcolor(i: u8) -> JpegColorType {
    use JpegColorType::*;
    [Luma, Ycbcr, Cmyk, Ycck][i as usize]
}

fn dens(d: Dens) -> Density {
    match d {
        Dens::None => Density::None,
        Dens::Inch(x, y) => Density::Inch { x, y },
        Dens::Cm(x, y) => Density::Centimeter { x, y },
    }
}

fn dens_back(d: Density) -> Dens {
    match d {
        Density::None => Dens::None,
        Density::Inch { x, y } => Dens::Inch(x, y),
        Density::Centimeter { x, y } => Dens::Cm(x, y),
    }
}

fn qt(t: &QT) -> QuantizationTableType {
    use QuantizationTableType::*;
    match t {
        QT::Preset(0) => Default,
        QT::Preset(1) => Flat,
        QT::Preset(2) => CustomMsSsim,
        QT::Preset(3) => CustomPsnrHvs,
        QT::Preset(4) => ImageMagick,
        QT::Preset(5) => KleinSilversteinCarney,
        QT::Preset(6) => DentalXRays,
        QT::Preset(7) => VisualDetectionModel,
        QT::Preset(_) => ImprovedDetectionModel,
        QT::Custom(v) => {
            let mut a = [1u16; 64];
            a.copy_from_slice(v);
            Custom(Box::new(a))
        }
    }
}

fn qt_back(t: &QuantizationTableType) -> QT {
    use QuantizationTableType::*;
    match t {
        Default => QT::Preset(0),
        Flat => QT::Preset(1),
        CustomMsSsim => QT::Preset(2),
        CustomPsnrHvs => QT::Preset(3),
        ImageMagick => QT::Preset(4),
        KleinSilversteinCarney => QT::Preset(5),
        DentalXRays => QT::Preset(6),
        VisualDetectionModel => QT::Preset(7),
        ImprovedDetectionModel => QT::Preset(8),
        Custom(v) => QT::Custom(v.to_vec()),
    }
}

fn err_info(e: &EncodingError) -> ErrInfo {
    let (kind, a, b, io) = match e {
        EncodingError::InvalidAppSegment(n) => ("InvalidAppSegment", *n as u64, 0, None),
        EncodingError::AppSegmentTooLarge(n) => ("AppSegmentTooLarge", *n as u64, 0, None),
        EncodingError::IccTooLarge(n) => ("IccTooLarge", *n as u64, 0, None),
        EncodingError::BadImageData { length, required } => ("BadImageData", *length as u64, *required as u64, None),
        EncodingError::ZeroImageDimensions { width, height } => {
            ("ZeroImageDimensions", *width as u64, *height as u64, None)
        }
        #[cfg(feature = "std")]
        EncodingError::IoError(e) => ("IoError", 0, 0, Some(format!("{:?}", e.kind()))),
        EncodingError::Write(_) => ("Write", 0, 0, None),
    };
    #[cfg(feature = "std")]
    let has_source = std::error::Error::source(e).is_some();
    #[cfg(not(feature = "std"))]
    let has_source = false;
    ErrInfo { kind: kind.into(), a, b, io, text: format!("{e}"), has_source }
}

fn outcome(r: Result<(), EncodingError>) -> Outcome {
    match r {
        Ok(()) => Outcome::Ok,
        Err(e) => Outcome::Err(err_info(&e)),
    }
}

// ---------------------------------------------------------------- writers

struct Rec {
    data: Vec<u8>,
    calls: u64,
    flushes: u64,
    calls_after_error: u64,
    failed: bool,
    fault: Fault,
    /// accepted per call: 0 = all
    short: Option<(u64, u16)>,
    interrupt: bool,
    #[cfg_attr(not(feature = "std"), allow(dead_code))]
    flush_kind: Option<u8>,
    cap: usize,
    nest: Option<Nest>,
}

/// Another encode inside an encode, which must give the same bytes every time.
struct Nest {
    seed: u64,
    want: Vec<u8>,
}

impl Nest {
    fn new(seed: u64) -> Nest {
        Nest { seed, want: Nest::encode(seed) }
    }
    fn encode(seed: u64) -> Vec<u8> {
        let r = |k: u64, n: u64| mix(seed ^ k << 40) % n;
        let ct = color(r(1, 9) as u8);
        let (w, h) = (1 + r(2, 40) as u16, 1 + r(3, 40) as u16);
        let px: Vec<u8> = (0..w as u64 * h as u64 * 4).map(|i| mix(seed ^ i) as u8).collect();
        let mut out = vec![];
        let mut e = Encoder::new(&mut out, 1 + r(4, 100) as u8);
        e.set_sampling_factor(sampling(r(5, 16) as u8));
        e.set_optimized_huffman_tables(r(6, 2) == 1);
        e.set_restart_interval(r(7, 5) as u16);
        if r(8, 2) == 1 {
            e.set_progressive_scans(2 + r(9, 20) as u8);
        }
        e.encode(&px, w, h, ct).expect("nested encode");
        out
    }
    fn again(&self) {
        if Nest::encode(self.seed) != self.want {
            panic!("an encode inside another encode gives other bytes");
        }
    }
}

/// No stream comes near this; an encoder that reaches it does not stop by itself.
fn output_cap(px: usize) -> usize {
    (64 << 20) + 32 * px
}

impl Rec {
    fn new(fault: Fault) -> Rec {
        Rec {
            data: vec![],
            calls: 0,
            flushes: 0,
            calls_after_error: 0,
            failed: false,
            fault,
            short: None,
            interrupt: false,
            flush_kind: None,
            cap: usize::MAX,
            nest: None,
        }
    }
    /// Ok(accepted) or Err((kind, text))
    fn on_write(&mut self, buf: &[u8]) -> Result<usize, (u8, String)> {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.calls_after_error += 1;
            if self.calls_after_error > 100_000 {
                panic!("endless writing to a failed writer");
            }
        }
        if self.data.len() > self.cap || self.calls > self.cap as u64 * 2 {
            panic!("endless output");
        }
        if n % 61 == 7 && n < 2000 {
            if let Some(x) = &self.nest {
                x.again();
            }
        }
        let mut take = buf.len();
        if let Some((seed, max)) = self.short {
            let r = mix(seed ^ n);
            if self.interrupt && r % 3 == 0 {
                return Err((255, String::new()));
            }
            take = take.min(1 + (r >> 8) as usize % max.max(1) as usize);
        }
        match self.fault.clone() {
            Fault::None => {}
            Fault::AtCall { n: k, kind, partial } => {
                if n >= k {
                    if n == k && partial > 0 {
                        self.data.extend_from_slice(&buf[..(partial as usize).min(buf.len())]);
                    }
                    self.failed = true;
                    return Err((kind, format!("fault at write {k}")));
                }
            }
            Fault::OnceAtCall { n: k, kind } => {
                if n == k {
                    self.failed = true;
                    return Err((kind, format!("fault at write {k}")));
                }
            }
            Fault::AtByte { n: k, kind } => {
                let room = (k as usize).saturating_sub(self.data.len());
                if room == 0 && !buf.is_empty() {
                    self.failed = true;
                    return Err((kind, format!("fault at byte {k}")));
                }
                take = take.min(room);
            }
        }
        self.data.extend_from_slice(&buf[..take]);
        Ok(take)
    }
}

type Shared = Rc<RefCell<Rec>>;
struct Writer(Shared);

#[cfg(feature = "std")]
pub fn io_kind(k: u8) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    [NotFound, PermissionDenied, BrokenPipe, WouldBlock, StorageFull, TimedOut, Other, WriteZero][k as usize & 7]
}

#[cfg(feature = "std")]
impl std::io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().on_write(buf).map_err(|(k, t)| {
            if k == 255 {
                std::io::ErrorKind::Interrupted.into()
            } else {
                std::io::Error::new(io_kind(k), t)
            }
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut r = self.0.borrow_mut();
        r.flushes += 1;
        if r.failed {
            r.calls_after_error += 1;
        }
        match r.flush_kind {
            Some(k) => Err(std::io::Error::new(io_kind(k), "fault at flush")),
            None => Ok(()),
        }
    }
}

#[cfg(not(feature = "std"))]
impl JfifWrite for Writer {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
        let mut b = buf;
        while !b.is_empty() {
            match self.0.borrow_mut().on_write(b) {
                Ok(n) => b = &b[n..],
                Err((255, _)) => {}
                Err((k, t)) => return Err(EncodingError::Write(format!("{}: {t}", IO_KINDS[k as usize & 7]))),
            }
        }
        Ok(())
    }
}

/// The n-th variant of the crate's error type, for a user's own writer.
fn own_error(n: u8, k: u8, text: String) -> EncodingError {
    match n {
        #[cfg(feature = "std")]
        1 => EncodingError::IoError(std::io::Error::new(io_kind(k), text)),
        2 => EncodingError::BadImageData { length: k as usize, required: 12345 },
        3 => EncodingError::ZeroImageDimensions { width: k as u16, height: 7 },
        4 => EncodingError::AppSegmentTooLarge(k as usize),
        5 => EncodingError::IccTooLarge(k as usize),
        6 => EncodingError::InvalidAppSegment(k),
        _ => EncodingError::Write(format!("{}: {text}", IO_KINDS[k as usize & 7])),
    }
}

fn put_all(s: &Shared, mut b: &[u8], err: u8) -> Result<(), EncodingError> {
    while !b.is_empty() {
        let r = s.borrow_mut().on_write(b);
        b = &b[r.map_err(|(k, t)| own_error(err, k, t))?..];
    }
    Ok(())
}

/// A user's own implementation of the crate's writer trait, without a flush method.
struct OwnPlain(Shared, u8);

impl JfifWrite for OwnPlain {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
        put_all(&self.0, buf, self.1)
    }
}

/// One that holds data back until it is flushed.
struct OwnHold {
    s: Shared,
    err: u8,
    hold: usize,
    buf: Vec<u8>,
}

impl OwnHold {
    fn drain(&mut self) -> Result<(), EncodingError> {
        let b = std::mem::take(&mut self.buf);
        put_all(&self.s, &b, self.err)
    }
}

impl JfifWrite for OwnHold {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
        let mut s = self.s.borrow_mut();
        if s.failed {
            s.calls_after_error += 1;
        }
        drop(s);
        self.buf.extend_from_slice(buf);
        if self.buf.len() > self.hold {
            self.drain()?;
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), EncodingError> {
        self.s.borrow_mut().flushes += 1;
        self.drain()
    }
}

#[cfg(feature = "sinks")]
fn own(hold: u32, err: u8, s: Shared, rq: &Request, px: &[u8], rs: &mut Response) {
    if hold == 0 {
        drive(Encoder::new(OwnPlain(s, err), rq.quality), rq, px, rs)
    } else {
        drive(Encoder::new(OwnHold { s, err, hold: hold as usize, buf: vec![] }, rq.quality), rq, px, rs)
    }
}

#[cfg(not(feature = "std"))]
fn own(hold: u32, err: u8, s: Shared, rq: &Request, px: &[u8], rs: &mut Response) {
    let mut a = OwnPlain(s.clone(), err);
    let mut b = OwnHold { s, err, hold: hold as usize, buf: vec![] };
    let w: &mut dyn JfifWrite = if hold == 0 { &mut a } else { &mut b };
    drive(Encoder::new(w, rq.quality), rq, px, rs)
}

#[cfg(all(feature = "std", not(feature = "sinks")))]
fn own(_: u32, err: u8, s: Shared, _: &Request, _: &[u8], _: &mut Response) {
    let _ = (OwnPlain(s.clone(), err), OwnHold { s, err, hold: 0, buf: vec![] });
}

// ---------------------------------------------------------------- image source

struct UserImage<'a> {
    px: &'a [u8],
    w: u16,
    h: u16,
    jct: u8,
    mode: BufMode,
    queries: Cell<u32>,
    log: RefCell<RowLog>,
    seen: RefCell<Vec<bool>>,
    last: Cell<i64>,
    nest: Option<Nest>,
}

impl UserImage<'_> {
    fn tick(&self) -> u32 {
        let q = self.queries.get();
        self.queries.set(q + 1);
        q
    }
}

impl ImageBuffer for &UserImage<'_> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        if let BufMode::ShiftyColor { after, other } = self.mode {
            if self.tick() >= after {
                return jcolor(other);
            }
        }
        jcolor(self.jct)
    }
    fn width(&self) -> u16 {
        if let BufMode::Shifty { after, wmask, .. } = self.mode {
            if self.tick() >= after {
                return self.w ^ wmask;
            }
        }
        self.w
    }
    fn height(&self) -> u16 {
        if let BufMode::Shifty { after, hmask, .. } = self.mode {
            if self.tick() >= after {
                return self.h ^ hmask;
            }
        }
        self.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let nc = JCT_COMPS[self.jct as usize];
        {
            let mut l = self.log.borrow_mut();
            l.count += 1;
            if y >= self.h {
                l.out_of_range += 1;
            } else {
                self.seen.borrow_mut()[y as usize] = true;
            }
            if (y as i64) < self.last.get() {
                l.descents += 1;
            }
            self.last.set(y as i64);
        }
        if let BufMode::PanicAt(r) = self.mode {
            if r == y {
                panic!("image source panics at row {y}");
            }
        }
        if let BufMode::Clear(k) = self.mode {
            if y % k.max(1) == 0 {
                for c in b.iter_mut() {
                    c.clear();
                }
            }
        }
        // (copying is quadratic on tall images, so only near the beginning)
        if self.mode == BufMode::Realloc && y < 64 {
            for c in b.iter_mut() {
                let mut n = Vec::with_capacity(c.len());
                n.extend_from_slice(c);
                *c = n;
            }
        }
        if let Some(n) = &self.nest {
            if (y as u64 ^ n.seed) % 5 == 0 && y < 100 {
                n.again();
            }
        }
        let w = self.w as usize;
        let (cnt, extra) = match self.mode {
            BufMode::Short(k) => (w.saturating_sub(k as usize), 0),
            BufMode::Long(k) => (w, k as usize),
            _ => (w, 0),
        };
        let row = (y as usize).min(self.h.saturating_sub(1) as usize);
        for x in 0..cnt {
            let o = (row * w + x) * nc;
            for c in 0..nc {
                b[c].push(self.px[o + c]);
            }
            if self.mode == BufMode::PushUnused {
                for (c, ch) in b.iter_mut().enumerate().skip(nc) {
                    ch.push((x * 31 + c * 7 + y as usize) as u8);
                }
            }
        }
        if let BufMode::UnusedSome(seed) = self.mode {
            let r = mix(seed ^ y as u64);
            for (c, ch) in b.iter_mut().enumerate().skip(nc) {
                let n = mix(r ^ c as u64);
                match n % 4 {
                    0 => {}
                    1 => ch.clear(),
                    2 => ch.push(n as u8),
                    _ => ch.resize(ch.len() + (n >> 8) as usize % (2 * w + 1), (n >> 40) as u8),
                }
            }
        }
        for i in 0..extra {
            for ch in b.iter_mut().take(nc) {
                ch.push(i as u8);
            }
        }
    }
}

// ---------------------------------------------------------------- running a request

fn snap<W: JfifWrite>(e: &Encoder<W>) -> Snap {
    let q = e.quantization_tables();
    Snap {
        density: dens_back(e.density()),
        sampling: sampling_index(e.sampling_factor()),
        qt: (qt_back(&q[0]), qt_back(&q[1])),
        scans: e.progressive_scans(),
        restart: e.restart_interval(),
        opt: e.optimized_huffman_tables(),
    }
}

fn drive<W: JfifWrite>(mut e: Encoder<W>, rq: &Request, px: &[u8], rs: &mut Response) {
    if rq.snaps {
        rs.init = Some(snap(&e));
    }
    for op in &rq.ops {
        let r = guarded(|| match op {
            Op::Density(d) => {
                e.set_density(dens(*d));
                Ok(())
            }
            Op::Sampling(s) => {
                e.set_sampling_factor(sampling(*s));
                Ok(())
            }
            Op::QTables(a, b) => {
                e.set_quantization_tables(qt(a), qt(b));
                Ok(())
            }
            Op::Progressive(p) => {
                e.set_progressive(*p);
                Ok(())
            }
            Op::Scans(n) => {
                e.set_progressive_scans(*n);
                Ok(())
            }
            Op::Restart(n) => {
                e.set_restart_interval(*n);
                Ok(())
            }
            Op::Optimized(o) => {
                e.set_optimized_huffman_tables(*o);
                Ok(())
            }
            Op::App { nr, data } => e.add_app_segment(*nr, &data.bytes()),
            Op::Icc(b) => e.add_icc_profile(&b.bytes()),
        });
        let o = match r {
            Ok(r) => outcome(r),
            Err(o) => o,
        };
        let s = if rq.snaps { Some(snap(&e)) } else { None };
        rs.ops.push((o, s));
    }
    match &rq.entry {
        Entry::Encode(ct) => {
            rs.outcome = match guarded(|| e.encode(px, rq.w, rq.h, color(*ct))) {
                Ok(r) => outcome(r),
                Err(o) => o,
            };
        }
        Entry::Custom { jct, mode } => {
            let img = UserImage {
                px,
                w: rq.w,
                h: rq.h,
                jct: *jct,
                mode: mode.clone(),
                queries: Cell::new(0),
                log: RefCell::new(RowLog::default()),
                seen: RefCell::new(vec![false; rq.h as usize]),
                last: Cell::new(-1),
                nest: if let BufMode::Nested(s) = mode { Some(Nest::new(*s)) } else { None },
            };
            rs.outcome = match guarded(|| e.encode_image(&img)) {
                Ok(r) => outcome(r),
                Err(o) => o,
            };
            rs.rows = img.log.borrow().clone();
            rs.rows.missing = img.seen.borrow().iter().filter(|s| !**s).count() as u64;
        }
    }
}

// Few writer types, because every one of them compiles the whole encoder again.
#[cfg(feature = "std")]
type Dyn<'a> = Box<dyn std::io::Write + 'a>;

#[cfg(feature = "std")]
fn via(sink: &Sink, mut w: Writer, rq: &Request, px: &[u8], rs: &mut Response) {
    match sink {
        // by value
        Sink::Plain(_) => drive(Encoder::new(Box::new(w) as Dyn, rq.quality), rq, px, rs),
        // boxed twice
        Sink::Boxed(_) => drive(Encoder::new(Box::new(Box::new(w) as Dyn) as Dyn, rq.quality), rq, px, rs),
        // borrowed
        Sink::ByRef(_) => drive(Encoder::new(Box::new(&mut w) as Dyn, rq.quality), rq, px, rs),
        _ => {
            let d: &mut dyn std::io::Write = &mut w;
            drive(Encoder::new(Box::new(d) as Dyn, rq.quality), rq, px, rs)
        }
    }
}

#[cfg(not(feature = "std"))]
fn via(_: &Sink, mut w: Writer, rq: &Request, px: &[u8], rs: &mut Response) {
    drive(Encoder::new(&mut w as &mut dyn JfifWrite, rq.quality), rq, px, rs)
}

/// A vector that does not grow forever.
struct Capped<'a> {
    v: &'a mut Vec<u8>,
    cap: usize,
}

impl Capped<'_> {
    fn put(&mut self, b: &[u8]) {
        self.v.extend_from_slice(b);
        if self.v.len() > self.cap {
            panic!("endless output");
        }
    }
}

#[cfg(feature = "std")]
impl std::io::Write for Capped<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.put(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(not(feature = "std"))]
impl JfifWrite for Capped<'_> {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        self.put(b);
        Ok(())
    }
}

#[cfg(feature = "std")]
type VecSink<'a> = Dyn<'a>;
#[cfg(not(feature = "std"))]
type VecSink<'a> = &'a mut dyn JfifWrite;

#[cfg(feature = "sinks")]
fn file(p: &str, rq: &Request, px: &[u8], rs: &mut Response) {
    match guarded(|| Encoder::new_file(p, rq.quality)) {
        Ok(Ok(e)) => drive(e, rq, px, rs),
        Ok(Err(e)) => rs.outcome = outcome(Err(e)),
        Err(o) => rs.outcome = o,
    }
}

#[cfg(not(feature = "sinks"))]
fn file(_: &str, _: &Request, _: &[u8], _: &mut Response) {}

pub fn run(rq: &Request, px: &[u8]) -> (Response, Vec<u8>) {
    init();
    let mut rs = Response {
        init: None,
        ops: vec![],
        outcome: Outcome::Unsupported,
        calls: 0,
        flushes: 0,
        calls_after_error: 0,
        rows: RowLog::default(),
    };
    let mut out = vec![];
    let rec = |f: &Fault| {
        let mut r = Rec::new(f.clone());
        r.cap = output_cap(px.len());
        Rc::new(RefCell::new(r))
    };
    let fin = |rs: &mut Response, s: &Shared| -> Vec<u8> {
        let mut r = s.borrow_mut();
        rs.calls = r.calls;
        rs.flushes = r.flushes;
        rs.calls_after_error = r.calls_after_error;
        std::mem::take(&mut r.data)
    };
    match &rq.sink {
        Sink::Vec => {
            let mut c = Capped { v: &mut out, cap: output_cap(px.len()) };
            #[cfg(feature = "std")]
            let w: VecSink = Box::new(&mut c);
            #[cfg(not(feature = "std"))]
            let w: VecSink = &mut c;
            drive(Encoder::new(w, rq.quality), rq, px, &mut rs)
        }
        Sink::RawVec => {
            #[cfg(feature = "std")]
            let w: VecSink = Box::new(&mut out);
            #[cfg(not(feature = "std"))]
            let w: VecSink = &mut out;
            drive(Encoder::new(w, rq.quality), rq, px, &mut rs)
        }
        Sink::File(p) => file(p, rq, px, &mut rs),
        Sink::Plain(f) | Sink::ByRef(f) | Sink::DynRef(f) | Sink::Boxed(f) => {
            let s = rec(f);
            let w = Writer(s.clone());
            via(&rq.sink, w, rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        Sink::Nested(k) => {
            let s = rec(&Fault::None);
            s.borrow_mut().nest = Some(Nest::new(*k));
            via(&rq.sink, Writer(s.clone()), rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        Sink::Own { hold, err, fault } => {
            let s = rec(fault);
            own(*hold, *err, s.clone(), rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        Sink::Short { seed, max, fault } | Sink::Interrupt { seed, max, fault } => {
            let s = rec(fault);
            {
                let mut r = s.borrow_mut();
                r.short = Some((*seed, *max));
                r.interrupt = matches!(rq.sink, Sink::Interrupt { .. });
            }
            via(&rq.sink, Writer(s.clone()), rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        #[cfg(not(feature = "std"))]
        _ => {}
        #[cfg(feature = "std")]
        Sink::Buffered { cap, fault } => {
            let s = rec(fault);
            let w = std::io::BufWriter::with_capacity(*cap, Writer(s.clone()));
            drive(Encoder::new(Box::new(w) as Dyn, rq.quality), rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        #[cfg(feature = "std")]
        Sink::BufferedRef { cap, fault } => {
            let s = rec(fault);
            let mut w = std::io::BufWriter::with_capacity(*cap, Writer(s.clone()));
            drive(Encoder::new(Box::new(&mut w) as Dyn, rq.quality), rq, px, &mut rs);
            // what has arrived when encode returns
            out = fin(&mut rs, &s);
            let _ = w.into_parts();
        }
        #[cfg(feature = "std")]
        Sink::FlushFails { kind } => {
            let s = rec(&Fault::None);
            s.borrow_mut().flush_kind = Some(*kind);
            via(&rq.sink, Writer(s.clone()), rq, px, &mut rs);
            out = fin(&mut rs, &s);
        }
        #[cfg(feature = "std")]
        Sink::Slice(n) => {
            let mut buf = vec![0u8; *n as usize];
            let left = {
                let mut s: &mut [u8] = &mut buf;
                drive(Encoder::new(Box::new(&mut s) as Dyn, rq.quality), rq, px, &mut rs);
                s.len()
            };
            buf.truncate(*n as usize - left);
            out = buf;
        }
        #[cfg(feature = "std")]
        Sink::Cursor => {
            let mut c = std::io::Cursor::new(Vec::new());
            drive(Encoder::new(Box::new(&mut c) as Dyn, rq.quality), rq, px, &mut rs);
            out = c.into_inner();
        }
    }
    (rs, out)
}

// ---------------------------------------------------------------- C interface

pub type Callback = extern "C" fn(*mut c_void, *const u8, usize, *const u8, usize);

/// # Safety
/// The pointers must describe readable memory; the request must be valid JSON.
#[no_mangle]
pub unsafe extern "C" fn je_run(rq: *const u8, rn: usize, px: *const u8, pn: usize, ud: *mut c_void, cb: Callback) {
    let rq = Request::parse(std::slice::from_raw_parts(rq, rn));
    let (rs, out) = run(&rq, std::slice::from_raw_parts(px, pn));
    let js = rs.json();
    cb(ud, js.as_ptr(), js.len(), out.as_ptr(), out.len());
}

pub fn convert(kind: u32, input: &[u8], out: &mut Vec<u8>) {
    if kind == 0 {
        for p in input.chunks_exact(3) {
            let (a, b, c) = jpeg_encoder::rgb_to_ycbcr(p[0], p[1], p[2]);
            out.extend_from_slice(&[a, b, c]);
        }
    } else {
        for p in input.chunks_exact(4) {
            let (a, b, c, d) = jpeg_encoder::cmyk_to_ycck(p[0], p[1], p[2], p[3]);
            out.extend_from_slice(&[a, b, c, d]);
        }
    }
}

/// Public colour conversions applied to a buffer; returns 0, or 1 after a panic. kind 0: RGB triples, 1: CMYK.
/// # Safety
/// `out` must have room for `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn je_convert(kind: u32, input: *const u8, n: usize, out: *mut u8) -> u32 {
    init();
    let i = std::slice::from_raw_parts(input, n);
    let mut v = Vec::with_capacity(n);
    if guarded(|| convert(kind, i, &mut v)).is_err() {
        return 1;
    }
    std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len());
    0
}

fn describe(kind: u32, a: u64, b: u64, text: &str) -> serde_json::Value {
    #[cfg(feature = "std")]
    let io = |e: std::io::Error| {
        let want = e.to_string();
        (EncodingError::from(e), Some(want))
    };
    let (e, want): (EncodingError, Option<String>) = match kind {
        0 => (EncodingError::InvalidAppSegment(a as u8), None),
        1 => (EncodingError::AppSegmentTooLarge(a as usize), None),
        2 => (EncodingError::IccTooLarge(a as usize), None),
        3 => (EncodingError::BadImageData { length: a as usize, required: b as usize }, None),
        4 => (EncodingError::ZeroImageDimensions { width: a as u16, height: b as u16 }, None),
        #[cfg(feature = "std")]
        5 => io(std::io::Error::new(io_kind(a as u8), text)),
        #[cfg(feature = "std")]
        6 => io(std::io::Error::from_raw_os_error((a % 134) as i32)),
        #[cfg(feature = "std")]
        7 => io(io_kind(a as u8).into()),
        _ => (EncodingError::Write(text.into()), Some(text.into())),
    };
    #[cfg(feature = "std")]
    let source = std::error::Error::source(&e).map(|s| s.to_string());
    #[cfg(not(feature = "std"))]
    let source: Option<String> = None;
    #[cfg(feature = "std")]
    let of_io = std::error::Error::source(&e).and_then(|s| s.downcast_ref::<std::io::Error>()).map(|s| format!("{:?}", s.kind()));
    #[cfg(not(feature = "std"))]
    let of_io: Option<String> = None;
    let info = err_info(&e);
    serde_json::json!({ "kind": info.kind, "io": info.io, "text": info.text, "want": want, "source": source, "source_io": of_io })
}

/// An error value made from its parts, as the user sees it (JSON).
/// # Safety
/// The pointer must describe readable memory.
#[no_mangle]
pub unsafe extern "C" fn je_error(kind: u32, a: u64, b: u64, text: *const u8, n: usize, ud: *mut c_void, cb: Callback) {
    init();
    let t = String::from_utf8_lossy(std::slice::from_raw_parts(text, n)).into_owned();
    let js = match guarded(|| describe(kind, a, b, &t)) {
        Ok(v) => v.to_string(),
        Err(o) => serde_json::json!({ "panic": format!("{o:?}") }).to_string(),
    };
    cb(ud, js.as_ptr(), js.len(), [].as_ptr(), 0);
}

/// Index of SamplingFactor::from_factors(h, v), -1 for None, -2 after a panic
#[no_mangle]
pub extern "C" fn je_from_factors(h: u8, v: u8) -> i32 {
    init();
    match guarded(|| SamplingFactor::from_factors(h, v)) {
        Ok(Some(s)) => sampling_index(s) as i32,
        Ok(None) => -1,
        Err(_) => -2,
    }
}

#[no_mangle]
pub extern "C" fn je_flags() -> u32 {
    (cfg!(feature = "std") as u32) | (cfg!(feature = "simd") as u32) << 1 | (cfg!(debug_assertions) as u32) << 2
}

// ---------------------------------------------------------------- coverage builds

#[cfg(feature = "cov")]
extern "C" {
    fn cov_reset();
    fn cov_counters(n: *mut usize) -> *const u8;
    fn cov_sites(t: *mut *const u32, n: *mut usize) -> *const c_void;
}

/// Clears what coverage has been recorded.
#[cfg(feature = "cov")]
#[no_mangle]
pub extern "C" fn je_cov_reset() {
    unsafe { cov_reset() }
}

#[cfg(feature = "cov")]
#[repr(C)]
pub struct CovState {
    pub counters: *const u8,
    pub ncounters: usize,
    pub sites: *const c_void,
    pub touched: *const u32,
    pub ntouched: usize,
}

/// Counters and comparisons since the last reset.
/// # Safety
/// The pointer must be writable.
#[cfg(feature = "cov")]
#[no_mangle]
pub unsafe extern "C" fn je_cov(s: *mut CovState) {
    let s = &mut *s;
    s.counters = cov_counters(&mut s.ncounters);
    s.sites = cov_sites(&mut s.touched, &mut s.ntouched);
}

// ---------------------------------------------------------------- memory accounting builds

#[cfg(feature = "count")]
mod count {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};

    thread_local! {
        static NOW: Cell<i64> = const { Cell::new(0) };
        static PEAK: Cell<i64> = const { Cell::new(0) };
        static BLOCKS: Cell<i64> = const { Cell::new(0) };
        static CALLS: Cell<i64> = const { Cell::new(0) };
    }
    struct A;

    fn note(bytes: i64, blocks: i64) {
        NOW.with(|n| {
            n.set(n.get() + bytes);
            PEAK.with(|p| p.set(p.get().max(n.get())));
        });
        BLOCKS.with(|b| b.set(b.get() + blocks));
        CALLS.with(|b| b.set(b.get() + (blocks > 0) as i64));
    }

    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                note(l.size() as i64, 1);
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                note(l.size() as i64, 1);
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l);
            note(-(l.size() as i64), -1);
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                // both exist for a moment
                note(n as i64, 1);
                note(-(l.size() as i64), -1);
            }
            q
        }
    }

    #[global_allocator]
    static G: A = A;

    /// A destination that keeps nothing; writing stops with an error at a byte position, or panics there.
    struct Gone {
        left: u64,
        panics: bool,
    }
    impl Gone {
        fn take(&mut self, n: usize) -> bool {
            if n as u64 > self.left {
                if self.panics {
                    panic!("the destination panics");
                }
                return false;
            }
            self.left -= n as u64;
            true
        }
    }
    #[cfg(feature = "std")]
    impl std::io::Write for Gone {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.take(b.len()) {
                Ok(b.len())
            } else {
                Err(std::io::ErrorKind::StorageFull.into())
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    #[cfg(not(feature = "std"))]
    impl JfifWrite for Gone {
        fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
            if self.take(b.len()) {
                Ok(())
            } else {
                Err(EncodingError::Write(String::from("full")))
            }
        }
    }

    fn once(rq: &Request, px: &[u8], room: u64, panics: bool, drop_only: bool) -> u64 {
        let mut rs = Response {
            init: None,
            ops: vec![],
            outcome: Outcome::Unsupported,
            calls: 0,
            flushes: 0,
            calls_after_error: 0,
            rows: RowLog::default(),
        };
        let mut g = Gone { left: room, panics };
        #[cfg(feature = "std")]
        let w: VecSink = Box::new(&mut g);
        #[cfg(not(feature = "std"))]
        let w: VecSink = &mut g;
        let e = Encoder::new(w, rq.quality);
        if drop_only {
            let mut rs2 = rs.clone();
            let w = if matches!(rq.entry, Entry::Encode(_)) { rq.w } else { 0 };
            let rq = Request { w, ..rq.clone() };
            drive(e, &rq, &[], &mut rs2);
            rs.outcome = rs2.outcome;
        } else {
            drive(e, rq, px, &mut rs);
        }
        match rs.outcome {
            Outcome::Ok => 0,
            Outcome::Err(_) => 1,
            Outcome::Panic(_) => 2,
            _ => 3,
        }
    }

    /// out: bytes held after minus before, blocks held after minus before, peak above the start, allocations, outcome
    /// (0 success, 1 error, 2 panic). mode: 0 the destination reports an error when full, 1 it panics, 2 refused call
    /// # Safety
    /// The pointers must describe readable memory and five writable numbers; the request must be valid JSON.
    #[no_mangle]
    pub unsafe extern "C" fn je_memory(rq: *const u8, rn: usize, px: *const u8, pn: usize, room: u64, mode: u32, out: *mut i64) {
        init();
        let rq = Request::parse(std::slice::from_raw_parts(rq, rn));
        let px = std::slice::from_raw_parts(px, pn);
        let out = std::slice::from_raw_parts_mut(out, 5);
        // what is set up at the first use stays
        once(&rq, px, room, mode == 1, mode == 2);
        let (n, b, c) = (NOW.with(|x| x.get()), BLOCKS.with(|x| x.get()), CALLS.with(|x| x.get()));
        PEAK.with(|p| p.set(n));
        out[4] = once(&rq, px, room, mode == 1, mode == 2) as i64;
        out[0] = NOW.with(|x| x.get()) - n;
        out[1] = BLOCKS.with(|x| x.get()) - b;
        out[2] = PEAK.with(|x| x.get()) - n;
        out[3] = CALLS.with(|x| x.get()) - c;
    }
}

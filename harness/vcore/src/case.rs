//! Description of one use of the encoder: image, configuration calls, entry point and writer behaviour.
use serde::{Deserialize, Serialize};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pattern {
    /// one colour everywhere
    Flat(u8, u8, u8, u8),
    /// uniform random bytes
    Noise(u64),
    /// random 0 / 255
    Extremes(u64),
    /// linear gradients with per channel slopes
    Gradient(u64),
    /// checkerboard / stripes of extreme values, period 1..8
    Checker(u64),
    /// every 8*s x 8*s cell has one random colour (large DC steps)
    BlockFlat(u64),
    /// sign pattern of one DCT basis function per 8*s cell (extreme AC values)
    Basis(u64),
    /// flat with rare outliers (long zero runs)
    Sparse(u64),
    /// smooth waves plus small noise
    Smooth(u64),
    /// a different one of the above per 16x16 cell
    Mixed(u64),
    /// explicit bytes, repeated
    Raw(Vec<u8>),
    /// one channel; AC symbols with Fibonacci frequencies when quantized by 8 (deep Huffman trees).
    /// `dense`: as many symbols per block as fit, otherwise one.
    Fib { n: u8, dense: bool, seed: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Image {
    pub w: u16,
    pub h: u16,
    pub pat: Pattern,
}

fn hash3(seed: u64, a: u64, b: u64, c: u64) -> u64 {
    mix(seed ^ mix(a.wrapping_mul(0x1000193) ^ mix(b.wrapping_mul(0x10001) ^ mix(c))))
}

fn sign_basis(u: usize, x: usize) -> bool {
    ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() >= 0.0
}

impl Pattern {
    fn kind(k: u64, seed: u64) -> Pattern {
        match k % 9 {
            0 => Pattern::Flat(seed as u8, (seed >> 8) as u8, (seed >> 16) as u8, (seed >> 24) as u8),
            1 => Pattern::Noise(seed),
            2 => Pattern::Extremes(seed),
            3 => Pattern::Gradient(seed),
            4 => Pattern::Checker(seed),
            5 => Pattern::BlockFlat(seed),
            6 => Pattern::Basis(seed),
            7 => Pattern::Sparse(seed),
            _ => Pattern::Smooth(seed),
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Pattern::Flat(..) => "flat",
            Pattern::Noise(_) => "noise",
            Pattern::Extremes(_) => "extremes",
            Pattern::Gradient(_) => "gradient",
            Pattern::Checker(_) => "checker",
            Pattern::BlockFlat(_) => "blockflat",
            Pattern::Basis(_) => "basis",
            Pattern::Sparse(_) => "sparse",
            Pattern::Smooth(_) => "smooth",
            Pattern::Mixed(_) => "mixed",
            Pattern::Raw(_) => "raw",
            Pattern::Fib { .. } => "fib",
        }
    }

    pub fn sample(&self, x: usize, y: usize, c: usize, w: usize, nch: usize) -> u8 {
        match self {
            Pattern::Flat(a, b, d, e) => [*a, *b, *d, *e][c & 3],
            Pattern::Noise(s) => hash3(*s, x as u64, y as u64, c as u64) as u8,
            Pattern::Extremes(s) => {
                if hash3(*s, x as u64, y as u64, c as u64) & 1 == 1 { 255 } else { 0 }
            }
            Pattern::Gradient(s) => {
                let q = mix(s.wrapping_add(c as u64 * 7919));
                let sx = (q % 17) as i64 - 8;
                let sy = ((q >> 8) % 17) as i64 - 8;
                let o = (q >> 16) as u8 as i64;
                let v = (o * 4 + sx * x as i64 + sy * y as i64).rem_euclid(1020);
                let v = if v > 510 { 1020 - v } else { v };
                (v / 2).clamp(0, 255) as u8
            }
            Pattern::Checker(s) => {
                let q = mix(s.wrapping_add(c as u64 * 104729));
                let px = 1 + (q % 8) as usize;
                let py = 1 + ((q >> 8) % 8) as usize;
                let m = (q >> 16) % 3;
                let b = match m {
                    0 => (x / px + y / py) & 1,
                    1 => (x / px) & 1,
                    _ => (y / py) & 1,
                };
                let lo = if (q >> 20) & 1 == 1 { 0 } else { (q >> 24) as u8 };
                let hi = if (q >> 21) & 1 == 1 { 255 } else { (q >> 32) as u8 };
                if b == 1 { hi } else { lo }
            }
            Pattern::BlockFlat(s) => {
                let sz = 8usize << (mix(*s) % 3);
                let q = hash3(*s, (x / sz) as u64, (y / sz) as u64, c as u64);
                match q % 4 {
                    0 => 0,
                    1 => 255,
                    _ => (q >> 8) as u8,
                }
            }
            Pattern::Basis(s) => {
                let st = 1usize << (mix(*s) % 3);
                let sz = 8 * st;
                let q = hash3(*s, (x / sz) as u64, (y / sz) as u64, c as u64);
                let u = if q & 7 == 0 { 4 } else { (q >> 3) as usize & 7 };
                let v = if (q >> 6) & 7 == 0 { 4 } else { (q >> 9) as usize & 7 };
                let b = sign_basis(u, x / st % 8) ^ sign_basis(v, y / st % 8) ^ ((q >> 20) & 1 == 1);
                if b { 255 } else { 0 }
            }
            Pattern::Sparse(s) => {
                let base = mix(s.wrapping_add(c as u64)) as u8;
                let q = hash3(*s, x as u64, y as u64, c as u64);
                if q % 97 == 0 { (q >> 32) as u8 } else { base }
            }
            Pattern::Smooth(s) => {
                let q = mix(s.wrapping_add(c as u64 * 31));
                let fx = 0.02 + (q % 64) as f64 / 200.0;
                let fy = 0.02 + ((q >> 8) % 64) as f64 / 200.0;
                let ph = (q >> 16) as u8 as f64 / 40.0;
                let amp = 20.0 + (q >> 24) as u8 as f64 / 2.2;
                let v = 128.0 + amp * 0.6 * ((x as f64 * fx + ph).sin() + (y as f64 * fy).cos());
                let n = (hash3(*s, x as u64, y as u64, c as u64) % 7) as f64 - 3.0;
                (v + n).clamp(0.0, 255.0) as u8
            }
            Pattern::Mixed(s) => {
                let q = hash3(*s, (x / 16) as u64, (y / 16) as u64, 99);
                Pattern::kind(q, q >> 5).sample(x, y, c, w, nch)
            }
            Pattern::Fib { .. } => 128,
            Pattern::Raw(v) => {
                if v.is_empty() { 0 } else { v[((y * w + x) * nch + c) % v.len()] }
            }
        }
    }
}

/// (run, size) of the symbols of a Fibonacci image, rarest first.
fn fib_symbols(n: usize, dense: bool) -> Vec<(usize, usize)> {
    if !dense {
        return (0..n).map(|i| (i % 16, 1 + i / 16)).collect();
    }
    // cheap symbols must be the frequent ones
    let mut s: Vec<(usize, usize)> = vec![(0, 1), (0, 2), (0, 3), (1, 1), (2, 1), (0, 4), (1, 2), (2, 2), (3, 1), (4, 1)];
    for r in 0..16 {
        for z in 1..=4 {
            if !s.contains(&(r, z)) {
                s.push((r, z));
            }
        }
    }
    s.truncate(n);
    s.reverse();
    s
}

fn fib_pixels(w: usize, h: usize, nch: usize, n: u8, dense: bool, seed: u64, out: &mut Vec<u8>) {
    let syms = fib_symbols(n as usize, dense);
    let (bw, bh) = (w.div_ceil(8), h.div_ceil(8));
    // 1 (the reserved code), 1, 2, 3, 5, ...: each weight exceeds the sum of all but the one before it,
    // so the code tree is a chain. The end-of-block symbol of every block takes the place of one weight.
    let mut list: Vec<u8> = vec![];
    let (mut a, mut b) = (1usize, 2usize);
    for i in 0..syms.len() {
        if dense && a == bw * bh {
            (a, b) = (b, a + b);
        }
        list.resize(list.len() + a, i as u8);
        (a, b) = (b, a + b);
    }
    let mut st = seed;
    for i in (1..list.len()).rev() {
        st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
        list.swap(i, (mix(st) % (i as u64 + 1)) as usize);
    }
    let mut c = [[0f64; 8]; 8];
    for (u, r) in c.iter_mut().enumerate() {
        let k = if u == 0 { (0.5f64).sqrt() } else { 1.0 } / 2.0;
        for (x, v) in r.iter_mut().enumerate() {
            *v = k * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
        }
    }
    let mut plane = vec![128u8; w * h];
    let mut p = 0;
    for blk in 0..bw * bh {
        let mut f = [0f64; 64];
        let mut k = 1;
        while p < list.len() {
            let (r, z) = syms[list[p] as usize];
            if k + r > 62 {
                break;
            }
            k += r;
            st = st.wrapping_add(1);
            let v = 8.0 * (1 << (z - 1)) as f64;
            f[crate::jpeg::ZZ[k] as usize] = if mix(st) & 1 == 1 { v } else { -v };
            k += 1;
            p += 1;
            if !dense {
                break;
            }
        }
        let mut t = [0f64; 64];
        for v in 0..8 {
            for x in 0..8 {
                t[v * 8 + x] = (0..8).map(|u| c[u][x] * f[v * 8 + u]).sum();
            }
        }
        let (x0, y0) = (blk % bw * 8, blk / bw * 8);
        for y in 0..8.min(h - y0) {
            for x in 0..8.min(w - x0) {
                let s: f64 = (0..8).map(|v| c[v][y] * t[v * 8 + x]).sum();
                plane[(y0 + y) * w + x0 + x] = (128.0 + s).round().clamp(0.0, 255.0) as u8;
            }
        }
    }
    for v in plane {
        for _ in 0..nch {
            out.push(v);
        }
    }
}

impl Image {
    /// Interleaved samples, `nch` per pixel.
    pub fn pixels(&self, nch: usize) -> Vec<u8> {
        let (w, h) = (self.w as usize, self.h as usize);
        let mut out = Vec::with_capacity(w * h * nch);
        match &self.pat {
            Pattern::Fib { n, dense, seed } => fib_pixels(w, h, nch, *n, *dense, *seed, &mut out),
            Pattern::Raw(v) if !v.is_empty() => {
                let n = w * h * nch;
                while out.len() < n {
                    let k = (n - out.len()).min(v.len());
                    out.extend_from_slice(&v[..k]);
                }
            }
            _ => {
                for y in 0..h {
                    for x in 0..w {
                        for c in 0..nch {
                            out.push(self.pat.sample(x, y, c, w, nch));
                        }
                    }
                }
            }
        }
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dens {
    None,
    Inch(u16, u16),
    Cm(u16, u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum QT {
    /// 0..9, in the order of the public enum
    Preset(u8),
    /// 64 entries, row major
    Custom(Vec<u16>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Blob {
    Gen { len: usize, seed: u64 },
    Raw(Vec<u8>),
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Raw(v) => v.clone(),
            Blob::Gen { len, seed } => {
                let mut v = Vec::with_capacity(len + 8);
                let mut i = 0u64;
                while v.len() < *len {
                    v.extend_from_slice(&mix(seed.wrapping_add(i)).to_le_bytes());
                    i += 1;
                }
                v.truncate(*len);
                v
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Blob::Raw(v) => v.len(),
            Blob::Gen { len, .. } => *len,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

/// Index of a sampling factor: order of [SAMPLING].
pub const SAMPLING: [(&str, u8, u8); 16] = [
    ("F_1_1", 1, 1),
    ("F_2_1", 2, 1),
    ("F_1_2", 1, 2),
    ("F_2_2", 2, 2),
    ("F_4_1", 4, 1),
    ("F_4_2", 4, 2),
    ("F_1_4", 1, 4),
    ("F_2_4", 2, 4),
    ("R_4_4_4", 1, 1),
    ("R_4_4_0", 1, 2),
    ("R_4_4_1", 1, 4),
    ("R_4_2_2", 2, 1),
    ("R_4_2_0", 2, 2),
    ("R_4_2_1", 2, 4),
    ("R_4_1_1", 4, 1),
    ("R_4_1_0", 4, 2),
];

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Density(Dens),
    Sampling(u8),
    QTables(QT, QT),
    Progressive(bool),
    Scans(u8),
    Restart(u16),
    Optimized(bool),
    App { nr: u8, data: Blob },
    Icc(Blob),
}

/// Colour types in the order of the public enum.
pub const CT_NAMES: [&str; 9] = ["Luma", "Rgb", "Rgba", "Bgr", "Bgra", "Ycbcr", "Cmyk", "CmykAsYcck", "Ycck"];
pub const CT_BPP: [usize; 9] = [1, 3, 4, 3, 4, 3, 4, 4, 4];
/// JPEG colour type (0 Luma, 1 Ycbcr, 2 Cmyk, 3 Ycck) each colour type is stored as
pub const CT_JCT: [u8; 9] = [0, 1, 1, 1, 1, 1, 2, 3, 3];
pub const JCT_COMPS: [usize; 4] = [1, 3, 4, 4];

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum BufMode {
    /// pushes exactly the samples
    Normal,
    /// also pushes garbage into channels the colour type does not use
    PushUnused,
    /// appends any number of values to those, or clears them, on some rows
    UnusedSome(u64),
    /// pushes k samples fewer per row (contract violation)
    Short(u16),
    /// pushes k samples more per row (contract violation)
    Long(u16),
    /// reports other dimensions on later queries (contract violation): xor masks applied after n queries
    Shifty { after: u32, wmask: u16, hmask: u16 },
    /// reports another colour type after n queries (contract violation)
    ShiftyColor { after: u32, other: u8 },
    /// clears / truncates the buffers it is given on rows with y % k == 0 (contract violation)
    Clear(u16),
    /// replaces the buffers by fresh vectors without spare capacity, keeping the content (allowed: it owns &mut Vec)
    Realloc,
    /// panics when asked for row y
    PanicAt(u16),
    /// encodes another picture (chosen by the number) while it is asked for some rows
    Nested(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Entry {
    /// Encoder::encode with colour type index
    Encode(u8),
    /// Encoder::encode_image with a user image source of JPEG colour type index
    Custom { jct: u8, mode: BufMode },
}

impl Entry {
    pub fn nch(&self) -> usize {
        match self {
            Entry::Encode(ct) => CT_BPP[*ct as usize],
            Entry::Custom { jct, .. } => JCT_COMPS[*jct as usize],
        }
    }
    pub fn jct(&self) -> u8 {
        match self {
            Entry::Encode(ct) => CT_JCT[*ct as usize],
            Entry::Custom { jct, .. } => *jct,
        }
    }
}

pub const IO_KINDS: [&str; 8] = [
    "NotFound",
    "PermissionDenied",
    "BrokenPipe",
    "WouldBlock",
    "StorageFull",
    "TimedOut",
    "Other",
    "WriteZero",
];

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// the n-th write call (0 based) and all later ones fail with IO_KINDS[kind]; `partial` bytes of it are taken first
    AtCall { n: u64, kind: u8, partial: u32 },
    /// the first write that would exceed n accepted bytes in total fails (accepting up to n)
    AtByte { n: u64, kind: u8 },
    /// as AtCall but only that one call fails, later ones would succeed
    OnceAtCall { n: u64, kind: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sink {
    /// &mut Vec<u8>
    Vec,
    /// by-value instrumented writer
    Plain(Fault),
    /// &mut of an instrumented writer
    ByRef(Fault),
    /// &mut dyn Write
    DynRef(Fault),
    /// Box<dyn Write>
    Boxed(Fault),
    /// accepts 1..=max bytes per write call, pseudo-randomly
    Short { seed: u64, max: u16, fault: Fault },
    /// returns ErrorKind::Interrupted on some calls, and accepts short
    Interrupt { seed: u64, max: u16, fault: Fault },
    /// BufWriter with capacity over an instrumented writer, moved into the encoder
    Buffered { cap: usize, fault: Fault },
    /// &mut BufWriter, content inspected right after encode returns
    BufferedRef { cap: usize, fault: Fault },
    /// accepts everything on write; flush reports an error
    FlushFails { kind: u8 },
    /// Encoder::new_file(path)
    File(String),
    /// a fixed slice of n bytes (&mut [u8] as io::Write)
    Slice(u64),
    /// a writer that encodes another picture (chosen by the number) during some writes
    Nested(u64),
    /// a plain Vec<u8> (Vec stands for a vector with a size limit)
    RawVec,
    /// io::Cursor<Vec<u8>>
    Cursor,
    /// a user's own JfifWrite. hold = 0: without a flush method; otherwise it keeps back up to that many bytes until
    /// it is flushed. err chooses the variant of its errors.
    Own { hold: u32, err: u8, fault: Fault },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Request {
    pub quality: u8,
    pub ops: Vec<Op>,
    pub entry: Entry,
    pub w: u16,
    pub h: u16,
    pub sink: Sink,
    pub snaps: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ErrInfo {
    pub kind: String,
    pub a: u64,
    pub b: u64,
    pub io: Option<String>,
    pub text: String,
    pub has_source: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Outcome {
    Ok,
    Err(ErrInfo),
    Panic(String),
    /// the worker process died (memory error report or abort)
    Died(String),
    /// not available in this build
    Unsupported,
}

impl Outcome {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Snap {
    pub density: Dens,
    pub sampling: u8,
    pub qt: (QT, QT),
    pub scans: Option<u8>,
    pub restart: Option<u16>,
    pub opt: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RowLog {
    pub count: u64,
    pub out_of_range: u64,
    pub missing: u64,
    pub descents: u64,
    pub unused_touched: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Response {
    pub init: Option<Snap>,
    pub ops: Vec<(Outcome, Option<Snap>)>,
    pub outcome: Outcome,
    pub calls: u64,
    pub flushes: u64,
    pub calls_after_error: u64,
    pub rows: RowLog,
}

/// A complete configuration from which setter calls are derived.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub quality: u8,
    pub sampling: Option<u8>,
    pub qt: Option<(QT, QT)>,
    pub prog: Prog,
    pub restart: u16,
    pub opt: bool,
    pub density: Dens,
    pub meta: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Prog {
    Off,
    On,
    Scans(u8),
}

impl Cfg {
    pub fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        if let Some(s) = self.sampling {
            v.push(Op::Sampling(s));
        }
        if let Some((a, b)) = &self.qt {
            v.push(Op::QTables(a.clone(), b.clone()));
        }
        match self.prog {
            Prog::Off => {}
            Prog::On => v.push(Op::Progressive(true)),
            Prog::Scans(n) => v.push(Op::Scans(n)),
        }
        if self.restart > 0 {
            v.push(Op::Restart(self.restart));
        }
        if self.opt {
            v.push(Op::Optimized(true));
        }
        if self.density != Dens::None {
            v.push(Op::Density(self.density));
        }
        v.extend(self.meta.iter().cloned());
        v
    }
    /// (h, v) factors that apply
    pub fn factors(&self) -> (usize, usize) {
        match self.sampling {
            Some(s) => (SAMPLING[s as usize].1 as usize, SAMPLING[s as usize].2 as usize),
            None => {
                if self.quality < 90 { (2, 2) } else { (1, 1) }
            }
        }
    }
    pub fn nscans(&self) -> Option<u8> {
        match self.prog {
            Prog::Off => None,
            Prog::On => Some(4),
            Prog::Scans(n) => Some(n),
        }
    }
    /// one scan with all components?
    pub fn interleaved(&self) -> bool {
        let (h, v) = self.factors();
        self.nscans().is_none() && !self.opt && h <= 2 && v <= 2
    }
    pub fn qtypes(&self) -> (QT, QT) {
        self.qt.clone().unwrap_or((QT::Preset(0), QT::Preset(0)))
    }
}

/// One encode: image + configuration + entry point.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub img: Image,
    pub cfg: Cfg,
    pub entry: Entry,
}

impl Case {
    pub fn request(&self, sink: Sink) -> Request {
        Request {
            quality: self.cfg.quality,
            ops: self.cfg.ops(),
            entry: self.entry.clone(),
            w: self.img.w,
            h: self.img.h,
            sink,
            snaps: false,
        }
    }
    pub fn pixels(&self) -> Vec<u8> {
        self.img.pixels(self.entry.nch())
    }
}

// Not generic, so that the coverage builds of the code under test do not contain the JSON code.
impl Request {
    pub fn parse(js: &[u8]) -> Request {
        serde_json::from_slice(js).expect("request")
    }
}
impl Response {
    pub fn json(&self) -> Vec<u8> {
        serde_json::to_vec(self).expect("response")
    }
}

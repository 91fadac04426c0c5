//! Invalid input, failing writers, histories of encodes.
use super::structure::{MAX_APP, MAX_ICC};
use super::*;
use crate::gen;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Len {
    w: u16,
    h: u16,
    ct: u8,
    /// data length relative to what is required
    rel: Rel,
    cfg: Cfg,
    v: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rel {
    Delta(i32),
    Fraction(u16),
    Empty,
}

fn side0() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 8 => 1..=40u16, 2 => 41..=600u16, 2 => any::<u16>(), 1 => Just(65535u16)].boxed()
}

fn lens() -> BoxedStrategy<Len> {
    let rel = prop_oneof![
        3 => Just(Rel::Delta(-1)),
        3 => Just(Rel::Delta(0)),
        2 => Just(Rel::Delta(1)),
        4 => (-40..=40i32).prop_map(Rel::Delta),
        2 => any::<u16>().prop_map(Rel::Fraction),
        1 => Just(Rel::Empty),
    ];
    (side0(), side0(), 0..9u8, rel, gen::cfg(), gen::vidx())
        .prop_map(|(w, h, ct, rel, cfg, v)| Len { w, h, ct, rel, cfg, v })
        .boxed()
}

const ROOM: u64 = 1_200_000;

fn len_case(l: &Len) -> (Request, Vec<u8>, u64) {
    let req = l.w as u64 * l.h as u64 * CT_BPP[l.ct as usize] as u64;
    let n = match l.rel {
        Rel::Delta(d) => (req as i64 + d as i64).max(0) as u64,
        Rel::Fraction(f) => req * f as u64 / 65536,
        Rel::Empty => 0,
    };
    // giant pictures only with too little data
    let n = n.min(ROOM) as usize;
    let px = Image { w: n.clamp(1, 60000) as u16, h: 1, pat: Pattern::Noise(l.v as u64) }.pixels(1);
    let mut px: Vec<u8> = px.iter().cycle().take(n).copied().collect();
    px.shrink_to_fit();
    let c = Case {
        img: Image { w: l.w, h: l.h, pat: Pattern::Flat(0, 0, 0, 0) },
        cfg: l.cfg.clone(),
        entry: Entry::Encode(l.ct),
    };
    (c.request(Sink::Plain(Fault::None)), px, req)
}

fn check_len(who: &str, l: &Len, rs: &Response, out: &[u8], n: usize, req: u64, max: u64) -> Result<&'static str, String> {
    let want = if l.w == 0 || l.h == 0 {
        "ZeroImageDimensions"
    } else if (n as u64) < req {
        "BadImageData"
    } else {
        "Ok"
    };
    let what = format!("[{who}] {}x{} {} with {n} bytes ({req} required)", l.w, l.h, CT_NAMES[l.ct as usize]);
    match (&rs.outcome, want) {
        (Outcome::Ok, "Ok") => {
            let j = vcore::jpeg::parse(out).map_err(|e| format!("{what}: {e}"))?;
            if (j.w, j.h) != (l.w as usize, l.h as usize) {
                return Err(format!("{what}: frame of {}x{}", j.w, j.h));
            }
            return Ok(want);
        }
        (Outcome::Err(e), w) if e.kind == w => {
            let exp = if w == "BadImageData" { (n as u64, req.min(max)) } else { (l.w as u64, l.h as u64) };
            if (e.a, e.b) != exp {
                return Err(format!("{what}: {} reports {:?} instead of {exp:?}", e.kind, (e.a, e.b)));
            }
        }
        (o, _) => return Err(format!("{what}: {o:?}, expected {want}")),
    }
    if !out.is_empty() || rs.calls != 0 || rs.flushes != 0 {
        return Err(format!("{what}: refused, but {} bytes in {} writes reached the writer", out.len(), rs.calls));
    }
    Ok(want)
}

fn t_len(ctx: &Ctx, l: &Len) -> R {
    let v = ctx.v(l.v as usize);
    let (rq, px, req) = len_case(l);
    let (rs, out) = v.run(&rq, &px);
    let k = check_len(&v.name, l, &rs, &out, px.len(), req, u64::MAX)?;
    Ok(M::new(k != "Ok" || px.len() as u64 == req).tag(k).tag(if px.len() as u64 == req { "exact length" } else { "other length" }))
}

/// Custom sources with zero dimensions.
fn t_zero(ctx: &Ctx, (w, h, jct): &(u16, u16, u8)) -> R {
    for v in &ctx.variants {
        let c = Case {
            img: Image { w: *w, h: *h, pat: Pattern::Noise(1) },
            cfg: Cfg { quality: 50, sampling: None, qt: None, prog: Prog::Off, restart: 0, opt: false, density: Dens::None, meta: vec![] },
            entry: Entry::Custom { jct: *jct, mode: BufMode::Normal },
        };
        let (rs, out) = v.run(&c.request(Sink::Plain(Fault::None)), &c.pixels());
        let zero = *w == 0 || *h == 0;
        let good = match &rs.outcome {
            Outcome::Ok => !zero,
            Outcome::Err(e) => zero && e.kind == "ZeroImageDimensions" && (e.a, e.b) == (*w as u64, *h as u64) && out.is_empty() && rs.calls == 0,
            _ => false,
        };
        if !good {
            return Err(format!("[{}] user source of {w}x{h}: {:?}, {} bytes written", v.name, rs.outcome, out.len()));
        }
    }
    Ok(M::new(*w == 0 || *h == 0))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    case: Case,
    ops: Vec<Op>,
    v: u8,
}

fn refuse() -> BoxedStrategy<Refuse> {
    let op = prop_oneof![
        3 => (prop_oneof![Just(0u8), 16..=255u8], gen::blob(30)).prop_map(|(nr, data)| Op::App { nr, data }),
        2 => (1..=15u8, 65534..=66000usize, any::<u64>()).prop_map(|(nr, len, seed)| Op::App { nr, data: Blob::Gen { len, seed } }),
        2 => (1..=15u8, 65529..=65533usize, any::<u64>()).prop_map(|(nr, len, seed)| Op::App { nr, data: Blob::Gen { len, seed } }),
        3 => (1..=15u8, gen::blob(30)).prop_map(|(nr, data)| Op::App { nr, data }),
        2 => prop_oneof![0..=1u8, 65..=255u8].prop_map(Op::Scans),
        3 => gen::any_op(),
    ];
    (gen::case(16), prop::collection::vec(op, 1..7), gen::vidx()).prop_map(|(case, ops, v)| Refuse { case, ops, v }).boxed()
}

fn refused(op: &Op) -> Option<(&'static str, u64)> {
    match op {
        Op::App { nr, .. } if *nr == 0 || *nr > 15 => Some(("InvalidAppSegment", *nr as u64)),
        Op::App { data, .. } if data.len() > MAX_APP => Some(("AppSegmentTooLarge", data.len() as u64)),
        Op::Icc(b) if b.len() > MAX_ICC => Some(("IccTooLarge", b.len() as u64)),
        Op::Scans(n) if !(2..=64).contains(n) => Some(("panic", 0)),
        _ => None,
    }
}

fn t_refuse(ctx: &Ctx, r: &Refuse) -> R {
    let v = ctx.v(r.v as usize);
    let px = r.case.pixels();
    let mut rq = r.case.request(Sink::Plain(Fault::None));
    rq.ops.extend(r.ops.iter().cloned());
    rq.snaps = true;
    let (rs, out) = v.run(&rq, &px);
    let mut prev = rs.init.clone();
    let mut n = 0;
    for (op, (o, s)) in rq.ops.iter().zip(&rs.ops) {
        match (refused(op), o) {
            (None, Outcome::Ok) => {}
            (Some(("panic", _)), Outcome::Panic(_)) => n += 1,
            (Some((k, a)), Outcome::Err(e)) if e.kind == k && e.a == a => n += 1,
            (want, got) => return Err(format!("[{}] {} gave {got:?}, expected {want:?}", v.name, brief(op))),
        }
        if refused(op).is_some() && *s != prev {
            return Err(format!("[{}] refused {} changed the encoder: {s:?}", v.name, brief(op)));
        }
        prev = s.clone();
    }
    if !rs.outcome.is_ok() {
        return Err(format!("[{}] encode after refused calls failed: {:?}", v.name, rs.outcome));
    }
    let mut clean = rq.clone();
    clean.ops.retain(|o| refused(o).is_none());
    let (rs2, out2) = v.run(&clean, &px);
    expect_ok(&rs2, &v.name)?;
    same_bytes(&out, &out2, "with and without refused calls")?;
    Ok(M::new(n > 0).inner(1).tag(format!("{n} refused calls")))
}

fn brief(op: &Op) -> String {
    match op {
        Op::App { nr, data } => format!("segment {nr} with {} bytes", data.len()),
        Op::Icc(b) => format!("ICC profile of {} bytes", b.len()),
        o => format!("{o:?}"),
    }
}

fn limits(ctx: &Ctx) -> Vec<(Op, u8)> {
    let mut v = vec![];
    for nr in 0..=255u8 {
        v.push((Op::App { nr, data: Blob::Gen { len: nr as usize % 7, seed: 1 } }, nr % 5));
    }
    for nr in [0u8, 1, 2, 14, 15, 16] {
        for len in [0usize, 1, 255, 256, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 131070, 131072, 200_000] {
            v.push((Op::App { nr, data: Blob::Gen { len, seed: 2 } }, (len % 5) as u8));
        }
    }
    let c = 65519usize;
    let mut sizes = vec![0, 1, c - 1, c, c + 1, 2 * c, 2 * c + 1, 253 * c, 254 * c - 1, 254 * c, 254 * c + 1, 255 * c - 1, 255 * c, 255 * c + 1, 256 * c, 256 * c + 1];
    if ctx.thorough {
        sizes.extend([257 * c, 511 * c, 512 * c, 513 * c, 16_777_216, 16_777_215]);
    }
    for (i, s) in sizes.into_iter().enumerate() {
        v.push((Op::Icc(Blob::Gen { len: s, seed: 3 }), (i % 5) as u8));
    }
    v
}

fn t_limit(ctx: &Ctx, (op, v): &(Op, u8)) -> R {
    let r = Refuse {
        case: Case {
            img: Image { w: 2, h: 2, pat: Pattern::Noise(3) },
            cfg: Cfg { quality: 50, sampling: None, qt: None, prog: Prog::Off, restart: 0, opt: false, density: Dens::None, meta: vec![] },
            entry: Entry::Encode(0),
        },
        ops: vec![op.clone(), Op::App { nr: 9, data: Blob::Raw(vec![9]) }],
        v: *v,
    };
    t_refuse(ctx, &r)?;
    Ok(M::new(true).tag(if refused(op).is_some() { "beyond a limit" } else { "within limits" }))
}

/// The same on a 32 bit build, where sizes do not fit the address space.
fn t_narrow(ctx: &Ctx, l: &Len) -> R {
    let (rq, px, req) = len_case(l);
    let (rs, out) = work(ctx, "i686", &rq, &px);
    let k = check_len("i686", l, &rs, &out, px.len(), req, u32::MAX as u64)?;
    Ok(M::new(k != "Ok").tag(k).tag(if req > u32::MAX as u64 { "required length exceeds 32 bits" } else { "fits 32 bits" }))
}

fn lens_narrow() -> BoxedStrategy<Len> {
    // products around multiples of 2^32
    let wrap = (0..9u8, 1..=3u64, 20000..=65535u16, -2..=3i64).prop_map(|(ct, k, w, d)| {
        let b = CT_BPP[ct as usize] as u64;
        let h = ((k << 32) / (w as u64 * b)) as i64 + d;
        (w, h.clamp(1, 65535) as u16, ct)
    });
    let exact = prop_oneof![
        Just((32768u16, 32768u16, 4u8)),
        Just((65535, 65535, 2)),
        Just((65535, 65535, 1)),
        Just((65535, 65535, 0)),
        Just((32768, 32768, 6)),
        Just((16384, 65535, 8)),
        Just((54613, 26215, 1))
    ];
    let rel = prop_oneof![2 => Just(Rel::Empty), 3 => Just(Rel::Delta(0)), 1 => any::<u16>().prop_map(Rel::Fraction)];
    (prop_oneof![3 => wrap, 1 => exact, 1 => (side0(), side0(), 0..9u8)], rel, gen::cfg(), gen::vidx())
        .prop_map(|((w, h, ct), rel, cfg, v)| Len { w, h, ct, rel, cfg, v })
        .boxed()
}

pub fn c05() -> Vec<Probe> {
    vec![
        prop("lengths", "sizes 0..=65535, every pixel format, data lengths at, around and far from the required one; non-trivial: refused, or exactly the required length", 90_000, 2_250_000, lens, t_len),
        list(
            "zero_sources",
            "user sources with all combinations of zero and non-zero dimensions; non-trivial: a dimension is zero",
            |_| [0u16, 1, 9, 65535].iter().flat_map(|w| [0u16, 1, 7].iter().flat_map(move |h| (0..4u8).map(move |j| (*w, *h, j)))).collect(),
            t_zero,
        ),
        list("limits", "all 256 segment numbers, payload sizes and ICC sizes at both sides of each limit; all are non-trivial", limits, t_limit),
        prop("refused_calls", "accepted and refused calls mixed; getters unchanged by refused calls and output equal to that without them; non-trivial: at least one refused call", 80_000, 2_000_000, refuse, t_refuse),
        prop("lengths_32bit", "lengths and sizes around multiples of 2^32 on an i686 build; non-trivial: refused", 40_000, 1_000_000, lens_narrow, t_narrow).plain(),
    ]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    case: Case,
    kind: u8,
    sink: u8,
    partial: u32,
    seed: u64,
    v: u8,
}

fn fcase(max: u16) -> BoxedStrategy<FCase> {
    (gen::case(max), 0..8u8, 0..6u8, 0..6u32, any::<u64>(), gen::vidx())
        .prop_map(|(case, kind, sink, partial, seed, v)| FCase { case, kind, sink, partial, seed, v })
        .boxed()
}
fn fcase_small() -> BoxedStrategy<FCase> {
    fcase(28)
}

/// Does the error carry the writer's own error?
fn carries(o: &Outcome, std: bool, kind: u8, text: &str) -> Result<(), String> {
    match o {
        Outcome::Err(e) if std && e.kind == "IoError" => {
            if e.io.as_deref() != Some(IO_KINDS[kind as usize]) {
                return Err(format!("error of kind {:?} instead of {}", e.io, IO_KINDS[kind as usize]));
            }
            if !e.text.contains(text) {
                return Err(format!("error {:?} is not the writer's own ({text})", e.text));
            }
            Ok(())
        }
        Outcome::Err(e) if !std && e.kind == "Write" => {
            if !e.text.contains(text) {
                return Err(format!("error {:?} is not the writer's own ({text})", e.text));
            }
            Ok(())
        }
        o => Err(format!("outcome {o:?}, the writer reported an error")),
    }
}

fn t_fault(ctx: &Ctx, f: &FCase) -> R {
    let v = ctx.v(f.v as usize);
    let std = v.flags & 1 == 1;
    let px = f.case.pixels();
    let mk = |fault: Fault| match f.sink % 6 {
        0 => Sink::Plain(fault),
        1 => Sink::ByRef(fault),
        2 => Sink::DynRef(fault),
        3 => Sink::Boxed(fault),
        4 => Sink::Short { seed: f.seed, max: 3 + (f.seed % 20) as u16, fault },
        _ => Sink::Interrupt { seed: f.seed, max: 1 + (f.seed % 30) as u16, fault },
    };
    let (rs, full) = v.run(&f.case.request(mk(Fault::None)), &px);
    expect_ok(&rs, &v.name)?;
    let calls = rs.calls;
    // the first writes, the last ones and a sample in between
    let mut at: Vec<u64> = (0..calls.min(26)).collect();
    at.extend(calls.saturating_sub(8)..calls);
    for i in 0..14 {
        at.push(mix(f.seed.wrapping_add(i)) % calls.max(1));
    }
    at.sort();
    at.dedup();
    let exhaustive = at.len() as u64 == calls;
    let mut faults = vec![];
    for n in at {
        faults.push(Fault::AtCall { n, kind: f.kind, partial: f.partial });
        if n % 3 == 0 {
            faults.push(Fault::OnceAtCall { n, kind: f.kind });
        }
    }
    for i in 0..10 {
        faults.push(Fault::AtByte { n: mix(f.seed.wrapping_add(100 + i)) % full.len() as u64, kind: f.kind });
    }
    faults.push(Fault::AtByte { n: full.len() as u64 - 1, kind: f.kind });
    faults.push(Fault::AtByte { n: full.len() as u64 - 2, kind: f.kind });
    faults.push(Fault::AtByte { n: full.len() as u64 - 3, kind: f.kind });
    let total = faults.len() as u64;
    let mut hit = 0;
    for fault in faults {
        let text = match &fault {
            Fault::AtCall { n, .. } | Fault::OnceAtCall { n, .. } => format!("fault at write {n}"),
            Fault::AtByte { n, .. } => format!("fault at byte {n}"),
            Fault::None => String::new(),
        };
        let interrupted_position = f.sink % 6 == 5;
        let (rs, out) = v.run(&f.case.request(mk(fault.clone())), &px);
        if interrupted_position && rs.outcome.is_ok() && out == full {
            // the failing position coincided with an interruption, the fault was never delivered
            continue;
        }
        hit += 1;
        let e = |m: String| format!("[{}] {fault:?} of {calls} writes: {m}", v.name);
        carries(&rs.outcome, std, f.kind, &text).map_err(e)?;
        if rs.calls_after_error > 0 {
            return Err(e(format!("{} calls to the writer after its error", rs.calls_after_error)));
        }
        if !full.starts_with(&out) {
            return Err(e("what was written before the error is not a prefix of the full stream".into()));
        }
    }
    Ok(tags(M::new(hit > 20), &f.case).inner(total).tag(if exhaustive { "every write position" } else { "sampled positions" }))
}

/// Fixed-size destinations.
fn t_slice(ctx: &Ctx, f: &FCase) -> R {
    let std: Vec<_> = ctx.variants.iter().filter(|v| v.flags & 1 == 1).collect();
    let v = std[f.v as usize % std.len()];
    let px = f.case.pixels();
    let full = ctx.encode_px(v, &f.case, &px)?;
    let n = full.len() as u64;
    let mut sizes: Vec<u64> = (0..12).map(|i| mix(f.seed.wrapping_add(i)) % n).collect();
    sizes.extend([0, 1, 2, 3, n - 3, n - 2, n - 1, n, n + 1]);
    for s in sizes.iter() {
        let (rs, out) = v.run(&f.case.request(Sink::Slice(*s)), &px);
        if *s >= n {
            expect_ok(&rs, &v.name)?;
            same_bytes(&out, &full, "slice destination")?;
            continue;
        }
        match &rs.outcome {
            Outcome::Err(e) if e.kind == "IoError" && e.io.as_deref() == Some("WriteZero") => {}
            o => return Err(format!("[{}] destination of {s} of {n} bytes: {o:?}", v.name)),
        }
        if !full.starts_with(&out) {
            return Err(format!("[{}] destination of {s} of {n} bytes does not hold a prefix", v.name));
        }
    }
    Ok(M::new(n > 300).inner(sizes.len() as u64))
}

/// Every single write position of one encode per mode.
fn all_positions(ctx: &Ctx) -> Vec<(Case, u8)> {
    let mut v = vec![];
    for (i, (prog, opt, restart, sampling)) in [
        (Prog::Off, false, 0u16, 0u8),
        (Prog::Off, false, 1, 3),
        (Prog::Off, true, 2, 0),
        (Prog::Off, false, 0, 6),
        (Prog::Scans(5), false, 1, 1),
        (Prog::Scans(64), true, 0, 0),
    ]
    .into_iter()
    .enumerate()
    {
        for ct in [0u8, 1, 6, 8] {
            for var in 0..5u8 {
                if (var as usize + i + ct as usize) % 2 == 0 || ctx.thorough {
                    v.push((
                        Case {
                            img: Image { w: 21, h: 18, pat: Pattern::Noise(ctx.seed) },
                            cfg: Cfg {
                                quality: 60,
                                sampling: Some(sampling),
                                qt: None,
                                prog,
                                restart,
                                opt,
                                density: Dens::Inch(72, 72),
                                meta: vec![Op::App { nr: 1, data: Blob::Raw(vec![1, 2, 3]) }, Op::Icc(Blob::Raw(vec![4; 9]))],
                            },
                            entry: Entry::Encode(ct),
                        },
                        var,
                    ));
                }
            }
        }
    }
    v
}

fn t_positions(ctx: &Ctx, (c, vi): &(Case, u8)) -> R {
    let v = ctx.v(*vi as usize);
    let std = v.flags & 1 == 1;
    let px = c.pixels();
    let (rs, full) = v.run(&c.request(Sink::Plain(Fault::None)), &px);
    expect_ok(&rs, &v.name)?;
    for n in 0..rs.calls {
        let kind = (n % 8) as u8;
        for fault in [Fault::AtCall { n, kind, partial: (n % 3) as u32 }, Fault::OnceAtCall { n, kind }] {
            let (r, out) = v.run(&c.request(Sink::Plain(fault.clone())), &px);
            let e = |m: String| format!("[{}] {fault:?} of {} writes: {m}", v.name, rs.calls);
            carries(&r.outcome, std, kind, &format!("fault at write {n}")).map_err(e)?;
            if r.calls_after_error > 0 {
                return Err(e("later calls to the writer".into()));
            }
            if !full.starts_with(&out) {
                return Err(e("no prefix of the full stream".into()));
            }
        }
    }
    Ok(tags(M::new(rs.calls > 30), c).inner(rs.calls * 2))
}

/// A user's own writer type with errors of any variant, and one that holds data back.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Own {
    case: Case,
    hold: u32,
    err: u8,
    kind: u8,
    seed: u64,
    v: u8,
}

fn own_of(case: BoxedStrategy<Case>) -> BoxedStrategy<Own> {
    let hold = prop_oneof![4 => Just(0u32), 2 => 1..=40u32, 2 => 41..=2000u32, 2 => Just(u32::MAX)];
    (case, hold, 0..7u8, 0..8u8, any::<u64>(), gen::vidx())
        .prop_map(|(case, hold, err, kind, seed, v)| Own { case, hold, err, kind, seed, v })
        .boxed()
}
fn own_small() -> BoxedStrategy<Own> {
    own_of(gen::case(28))
}

fn own_carries(o: &Outcome, std: bool, f: &Own, text: &str) -> Result<(), String> {
    let k = f.kind as u64;
    let want = match f.err {
        1 if std => ("IoError", 0, 0),
        2 => ("BadImageData", k, 12345),
        3 => ("ZeroImageDimensions", k, 7),
        4 => ("AppSegmentTooLarge", k, 0),
        5 => ("IccTooLarge", k, 0),
        6 => ("InvalidAppSegment", k, 0),
        _ => ("Write", 0, 0),
    };
    match o {
        Outcome::Err(e) if (e.kind.as_str(), e.a, e.b) == want => {
            let io = if want.0 == "IoError" { Some(IO_KINDS[f.kind as usize]) } else { None };
            if e.io.as_deref() != io {
                return Err(format!("error of kind {:?} instead of {io:?}", e.io));
            }
            if f.err < 2 && !e.text.contains(text) {
                return Err(format!("error {:?} is not the writer's own ({text})", e.text));
            }
            Ok(())
        }
        o => Err(format!("outcome {o:?}, the writer reported {want:?}")),
    }
}

fn t_own(ctx: &Ctx, f: &Own) -> R {
    let v = ctx.v(f.v as usize);
    let std = v.flags & 1 == 1;
    let px = f.case.pixels();
    let plain = ctx.encode_px(v, &f.case, &px)?;
    let mk = |fault: Fault| Sink::Own { hold: f.hold, err: f.err, fault };
    let (rs, full) = v.run(&f.case.request(mk(Fault::None)), &px);
    let name = format!("[{}] a user's own writer", v.name);
    expect_ok(&rs, &name)?;
    same_bytes(&full, &plain, &name)?;
    if f.hold > 0 && rs.flushes != 1 {
        return Err(format!("{name}: flushed {} times instead of once after the picture", rs.flushes));
    }
    let calls = rs.calls;
    let mut faults: Vec<Fault> = (0..8)
        .map(|i| mix(f.seed.wrapping_add(i)))
        .chain(0..3)
        .chain(calls.saturating_sub(3)..calls)
        .map(|n| n % calls)
        .map(|n| if n % 3 == 0 { Fault::OnceAtCall { n, kind: f.kind } } else { Fault::AtCall { n, kind: f.kind, partial: (n % 4) as u32 } })
        .collect();
    let len = full.len() as u64;
    faults.extend([len - 1, len - 2, mix(f.seed ^ 99) % len].map(|n| Fault::AtByte { n, kind: f.kind }));
    let total = faults.len() as u64;
    for fault in faults {
        let text = match &fault {
            Fault::AtByte { n, .. } => format!("fault at byte {n}"),
            Fault::AtCall { n, .. } | Fault::OnceAtCall { n, .. } => format!("fault at write {n}"),
            Fault::None => String::new(),
        };
        let (rs, out) = v.run(&f.case.request(mk(fault.clone())), &px);
        let e = |m: String| format!("{name} holding back {}, {fault:?} of {calls} writes: {m}", f.hold);
        own_carries(&rs.outcome, std, f, &text).map_err(e)?;
        if rs.calls_after_error > 0 {
            return Err(e(format!("{} calls to the writer after its error", rs.calls_after_error)));
        }
        if !full.starts_with(&out) {
            return Err(e("what was written before the error is not a prefix of the full stream".into()));
        }
    }
    let t = if f.hold == 0 { "no flush method" } else if calls == 1 { "everything held back" } else { "some held back" };
    Ok(tags(M::new(f.hold == 0 || calls > 1 || len > 300), &f.case).inner(total).tag(t))
}

pub fn c11() -> Vec<Probe> {
    vec![
        prop("own", "a user's own writer type in all builds, with errors of any variant, without a flush method or holding data back until flushed; faults at the first, the last and sampled writes and bytes; non-trivial: no flush method, some data passed on early, or over 300 bytes", 15_000, 375_000, own_small, t_own),
        list("positions", "every write of an encode as the failing one, permanently and once, six modes x four colour types (exhaustive per encode); non-trivial: more than 30 writes", all_positions, t_positions),
        prop("faults", "full configurations; faults at the first and last writes, sampled writes and sampled bytes, eight error kinds, six kinds of writers; non-trivial: more than 20 faults delivered", 15_000, 375_000, fcase_small, t_fault),
        prop("slices", "destinations of fixed size from 0 to beyond the stream; non-trivial: stream of more than 300 bytes", 20_000, 500_000, fcase_small, t_slice),
    ]
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Del {
    case: Case,
    sink: Sink,
    v: u8,
    cut: u64,
}

fn cap() -> BoxedStrategy<usize> {
    prop_oneof![1 => Just(0usize), 2 => 1..=9usize, 3 => 10..=600usize, 3 => 601..=100_000usize].boxed()
}

fn del_case() -> BoxedStrategy<Del> {
    let none = Fault::None;
    let sink = prop_oneof![
        1 => Just(Sink::Plain(none.clone())),
        1 => Just(Sink::ByRef(none.clone())),
        1 => Just(Sink::DynRef(none.clone())),
        1 => Just(Sink::Boxed(none.clone())),
        1 => Just(Sink::Cursor),
        2 => Just(Sink::RawVec),
        3 => (any::<u64>(), 1..=40u16).prop_map(|(seed, max)| Sink::Short { seed, max, fault: Fault::None }),
        3 => (any::<u64>(), 1..=300u16).prop_map(|(seed, max)| Sink::Interrupt { seed, max, fault: Fault::None }),
        4 => cap().prop_map(|cap| Sink::Buffered { cap, fault: Fault::None }),
        4 => cap().prop_map(|cap| Sink::BufferedRef { cap, fault: Fault::None }),
        2 => (0..8u8).prop_map(|kind| Sink::FlushFails { kind }),
        // broken destinations behind a buffer: the position is filled in by the test
        4 => (cap(), 0..8u8).prop_map(|(cap, kind)| Sink::Buffered { cap, fault: Fault::AtByte { n: 0, kind } }),
        3 => (cap(), 0..8u8).prop_map(|(cap, kind)| Sink::BufferedRef { cap, fault: Fault::AtByte { n: 0, kind } }),
        2 => (cap(), 0..8u8).prop_map(|(cap, kind)| Sink::Buffered { cap, fault: Fault::AtCall { n: 0, kind, partial: 0 } }),
    ];
    (gen::case(40), sink, gen::vidx(), any::<u64>()).prop_map(|(case, sink, v, cut)| Del { case, sink, v, cut }).boxed()
}

fn t_deliver(ctx: &Ctx, d: &Del) -> R {
    let px = d.case.pixels();
    let raw = matches!(d.sink, Sink::RawVec);
    let vs: Vec<_> = ctx.variants.iter().filter(|v| raw || v.flags & 1 == 1).collect();
    let v = vs[d.v as usize % vs.len()];
    let full = ctx.encode_px(v, &d.case, &px)?;
    let sink = match &d.sink {
        Sink::Buffered { cap, fault: Fault::AtByte { kind, .. } } => {
            Sink::Buffered { cap: *cap, fault: Fault::AtByte { n: d.cut % full.len() as u64, kind: *kind } }
        }
        Sink::BufferedRef { cap, fault: Fault::AtByte { kind, .. } } => {
            Sink::BufferedRef { cap: *cap, fault: Fault::AtByte { n: d.cut % full.len() as u64, kind: *kind } }
        }
        s => s.clone(),
    };
    let (rs, out) = v.run(&d.case.request(sink.clone()), &px);
    let broken = matches!(
        &sink,
        Sink::FlushFails { .. } | Sink::Buffered { fault: Fault::AtByte { .. } | Fault::AtCall { .. }, .. } | Sink::BufferedRef { fault: Fault::AtByte { .. } | Fault::AtCall { .. }, .. }
    );
    let name = format!("[{}] {sink:?}", v.name);
    if broken {
        let kind = match &sink {
            Sink::FlushFails { kind }
            | Sink::Buffered { fault: Fault::AtByte { kind, .. } | Fault::AtCall { kind, .. }, .. }
            | Sink::BufferedRef { fault: Fault::AtByte { kind, .. } | Fault::AtCall { kind, .. }, .. } => *kind,
            _ => 0,
        };
        carries(&rs.outcome, true, kind, "fault at").map_err(|e| format!("{name}: {e}"))?;
        if !full.starts_with(&out) {
            return Err(format!("{name}: no prefix of the full stream was delivered"));
        }
        Ok(tags(M::new(true).tag("undeliverable"), &d.case))
    } else {
        expect_ok(&rs, &name)?;
        same_bytes(&out, &full, &name)?;
        Ok(tags(M::new(full.len() > 300).tag("delivered"), &d.case))
    }
}

/// Large streams through small buffers and short writes.
fn big_del() -> BoxedStrategy<Del> {
    (gen::case_big(), del_case()).prop_map(|(case, d)| Del { case, ..d }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    case: Case,
    before: Blob,
    v: u8,
}

fn file_case() -> BoxedStrategy<FileCase> {
    (gen::case(60), prop_oneof![1 => Just(Blob::Raw(vec![])), 3 => (0..=60_000usize, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed })], gen::vidx())
        .prop_map(|(case, before, v)| FileCase { case, before, v })
        .boxed()
}

fn t_file(ctx: &Ctx, f: &FileCase) -> R {
    let v = ctx.by_name("scalar-release");
    let px = f.case.pixels();
    let full = ctx.encode_px(v, &f.case, &px)?;
    let p = format!("{}/out-{:?}.jpg", ctx.scratch, std::thread::current().id()).replace(['(', ')'], "");
    let keep = f.before.len() > 0;
    let _ = std::fs::remove_file(&p);
    if keep {
        std::fs::write(&p, f.before.bytes()).map_err(|e| e.to_string())?;
    }
    let (rs, _) = v.run(&f.case.request(Sink::File(p.clone())), &px);
    if rs.outcome == Outcome::Unsupported {
        eprintln!("HARNESS ERROR: file constructor not built in");
        std::process::exit(2);
    }
    expect_ok(&rs, "file")?;
    let got = std::fs::read(&p).map_err(|e| format!("the file was not created: {e}"))?;
    let _ = std::fs::remove_file(&p);
    same_bytes(&got, &full, "file content")?;
    // a destination without space
    let (rs, _) = v.run(&f.case.request(Sink::File("/dev/full".into())), &px);
    match &rs.outcome {
        Outcome::Err(e) if e.kind == "IoError" => {}
        o => return Err(format!("encoding {} bytes to a full device: {o:?}", full.len())),
    }
    Ok(M::new(f.before.len() > full.len()).inner(1).tag(if f.before.len() > full.len() { "longer previous content" } else { "shorter or no previous content" }))
}

fn t_badpath(ctx: &Ctx, p: &String) -> R {
    let v = ctx.by_name("scalar-release");
    let c = Case {
        img: Image { w: 2, h: 2, pat: Pattern::Noise(3) },
        cfg: Cfg { quality: 50, sampling: None, qt: None, prog: Prog::Off, restart: 0, opt: false, density: Dens::None, meta: vec![] },
        entry: Entry::Encode(0),
    };
    let path = p.replace("SCRATCH", &ctx.scratch);
    let (rs, _) = v.run(&c.request(Sink::File(path)), &c.pixels());
    match &rs.outcome {
        Outcome::Err(e) if e.kind == "IoError" => Ok(M::new(true).tag(format!("{:?}", e.io))),
        o => Err(format!("file {p} can not be created, but: {o:?}")),
    }
}

pub fn c12() -> Vec<Probe> {
    vec![
        prop("own", "a user's own writer type in all builds that holds data back until it is flushed: everything arrives, the flush comes once, and its failure is the result; non-trivial: no flush method, some data passed on early, or over 300 bytes", 15_000, 375_000, own_small, t_own),
        prop("deliver", "destinations of 13 kinds (by value, borrowed, boxed, partial writes, interruptions, buffers of any capacity, failing flush, failing destination behind a buffer); non-trivial: stream over 300 bytes, or an undeliverable one", 120_000, 3_000_000, del_case, t_deliver),
        prop("deliver_big", "as above with large images", 300, 7500, big_del, t_deliver),
        prop("file", "file constructor over previous content of any length, and a full device; non-trivial: the previous content is longer than the stream", 30_000, 750_000, file_case, t_file).plain(),
        list("bad_path", "paths that can not be created", |_| vec!["SCRATCH/missing/x.jpg".to_string(), "SCRATCH".into(), "/dev/null/x".into(), "".into()], t_badpath),
    ]
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    steps: Vec<(Case, u8)>,
    build: u8,
}

fn hist() -> BoxedStrategy<Hist> {
    // several steps share an image or a configuration, so that stale state would fit
    (gen::case(40), prop::collection::vec((gen::case(40), 0..15u8, 0..10u8), 2..9), 0..2u8)
        .prop_map(|(base, v, build)| {
            let steps = v
                .into_iter()
                .map(|(c, kind, share)| {
                    let mut c = c;
                    if share & 1 == 1 {
                        c.cfg = base.cfg.clone();
                        if share == 3 {
                            c.cfg.quality = c.cfg.quality.wrapping_add(kind);
                        }
                    }
                    if share & 2 == 2 {
                        c.img.w = base.img.w;
                        c.img.h = base.img.h;
                        c.entry = base.entry.clone();
                    }
                    if share >= 8 {
                        // the very same but for what `kind` changes
                        c = base.clone();
                    }
                    if share == 4 {
                        c = Case { cfg: c.cfg, ..base.clone() };
                    }
                    (c, kind)
                })
                .collect();
            Hist { steps, build }
        })
        .boxed()
}

const HIST_BUILDS: [&str; 2] = ["scalar-release", "simd-release"];

/// kind 0..5 normal, others end in some failure
fn step_request(c: &Case, kind: u8) -> (Request, Vec<u8>) {
    let mut px = c.pixels();
    let mut rq = c.request(Sink::Vec);
    match kind {
        5 => px.truncate(px.len() / 2),
        6 => rq.sink = Sink::Plain(Fault::AtByte { n: 700, kind: 2 }),
        7 => {
            rq.entry = Entry::Custom { jct: c.entry.jct(), mode: BufMode::PanicAt(c.img.h / 2) };
        }
        8 => rq.w = 0,
        9 => rq.ops.push(Op::Scans(99)),
        // nearly the same as another step: contents that sums, ends and samples of them do not tell apart
        10 => {
            let n = px.len();
            if let Some(k) = (n / 2..n).find(|k| px[*k] != px[n / 3]) {
                px.swap(k, n / 3);
            }
        }
        11 => {
            let k = px.len() * 2 / 3;
            px[k] = px[k].wrapping_add(100);
        }
        12 => {
            let k = c.entry.nch().min(px.len());
            px.rotate_left(k)
        }
        13 | 14 => {
            let mut t = vec![16u16; 64];
            (t[5], t[9]) = if kind == 13 { (20, 12) } else { (12, 20) };
            t[40] = 3 + (c.img.w % 3);
            rq.ops.push(Op::QTables(QT::Custom(t.clone()), QT::Custom(t)));
        }
        _ => {}
    }
    (rq, px)
}

fn same_result(a: &(Response, Vec<u8>), b: &(Response, Vec<u8>), what: &str) -> Result<(), String> {
    same_bytes(&a.1, &b.1, what)?;
    if a.0 != b.0 {
        return Err(format!("{what}: results {:?} and {:?}", a.0, b.0));
    }
    Ok(())
}

fn t_history(ctx: &Ctx, h: &Hist) -> R {
    let b = HIST_BUILDS[h.build as usize % 2];
    let mut one = spawn(ctx, b, &[]);
    let reqs: Vec<_> = h.steps.iter().map(|(c, k)| step_request(c, *k)).collect();
    let mut got = vec![];
    for (rq, px) in &reqs {
        got.push(one.run(rq, px));
    }
    // again, in reverse order, in the same process
    for (i, (rq, px)) in reqs.iter().enumerate().rev() {
        same_result(&got[i], &one.run(rq, px), &format!("[{b}] step {i} repeated later"))?;
    }
    for (i, (rq, px)) in reqs.iter().enumerate() {
        let mut fresh = spawn(ctx, b, &[]);
        same_result(&got[i], &fresh.run(rq, px), &format!("[{b}] step {i} after the steps before it, and alone"))?;
    }
    let failing = h.steps.iter().filter(|s| (5..10).contains(&s.1)).count();
    Ok(M::new(h.steps.len() > 1).inner(reqs.len() as u64 * 3 - 1).tag(format!("{} steps", h.steps.len())).tag(if failing > 0 { "with failing steps" } else { "all succeed" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    cases: Vec<Case>,
    v: u8,
}

fn par() -> BoxedStrategy<Par> {
    (prop::collection::vec(gen::case(90), 4..=4), gen::vidx()).prop_map(|(cases, v)| Par { cases, v }).boxed()
}

fn t_parallel(ctx: &Ctx, p: &Par) -> R {
    let v = ctx.v(p.v as usize);
    let data: Vec<_> = p.cases.iter().map(|c| (c.request(Sink::Vec), c.pixels())).collect();
    let alone: Vec<_> = data.iter().map(|(r, d)| v.run(r, d)).collect();
    let start = std::sync::Barrier::new(data.len());
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for (i, (r, d)) in data.iter().enumerate() {
            let (start, bad, alone) = (&start, &bad, &alone);
            s.spawn(move || {
                start.wait();
                for _ in 0..4 {
                    if let Err(e) = same_result(&alone[i], &v.run(r, d), &format!("[{}] image {i} with three others at the same time", v.name)) {
                        *bad.lock().unwrap() = Some(e);
                    }
                }
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    for (a, c) in alone.iter().zip(&p.cases) {
        if !a.0.outcome.is_ok() {
            return Err(format!("[{}] {:?}: {:?}", v.name, class(c), a.0.outcome));
        }
    }
    Ok(M::new(true).inner(19))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    case: Case,
    seed: u64,
    v: u8,
}

fn nest() -> BoxedStrategy<Nest> {
    (gen::case(60), any::<u64>(), gen::vidx()).prop_map(|(case, seed, v)| Nest { case, seed, v }).boxed()
}

/// Encodes started while another one is under way on the same thread, and pixels at another address.
fn t_nested(ctx: &Ctx, n: &Nest) -> R {
    let v = ctx.v(n.v as usize);
    let c = &n.case;
    let px = c.pixels();
    let a = v.run(&c.request(Sink::Vec), &px);
    expect_ok(&a.0, &v.name)?;
    let b = v.run(&c.request(Sink::Nested(n.seed)), &px);
    expect_ok(&b.0, &format!("{}, the writer encodes another picture", v.name))?;
    same_bytes(&a.1, &b.1, &format!("[{}] the writer encodes another picture", v.name))?;
    // the same source without and with an encode inside
    let src = |mode| Case { entry: Entry::Custom { jct: c.entry.jct(), mode }, ..c.clone() };
    let m = src(BufMode::Normal);
    let spx = m.pixels();
    let a2 = v.run(&m.request(Sink::Vec), &spx);
    expect_ok(&a2.0, &v.name)?;
    let b2 = v.run(&src(BufMode::Nested(n.seed)).request(Sink::Nested(n.seed ^ 1)), &spx);
    expect_ok(&b2.0, &format!("{}, the image source encodes another picture", v.name))?;
    same_bytes(&a2.1, &b2.1, &format!("[{}] the image source encodes another picture", v.name))?;
    let off = 1 + n.seed as usize % 31;
    let mut moved = vec![0u8; off];
    moved.extend_from_slice(&px);
    let d = v.run(&c.request(Sink::Vec), &moved[off..]);
    same_bytes(&a.1, &d.1, &format!("[{}] pixels {off} bytes further", v.name))?;
    Ok(M::new(c.img.h > 5).inner(5).tag(class(c)))
}

/// Under ThreadSanitizer, which also makes other interleavings likely.
fn t_tsan(ctx: &Ctx, p: &Par) -> R {
    let b = ["tsan-scalar", "tsan-simd"][p.v as usize % 2];
    let reqs: Vec<_> = p.cases.iter().map(|c| (c.request(Sink::Vec), c.pixels())).collect();
    let got = work_together(ctx, b, &reqs).map_err(|e| format!("[{b}] four encodes at the same time: {e}"))?;
    for (i, (x, (rq, px))) in got.iter().zip(&reqs).enumerate() {
        same_result(&work(ctx, "scalar-release", rq, px), x, &format!("[{b}] image {i} with three others at the same time"))?;
    }
    Ok(M::new(true).inner(3))
}

fn par_small() -> BoxedStrategy<Par> {
    (prop::collection::vec(gen::case(48), 4..=4), gen::vidx()).prop_map(|(cases, v)| Par { cases, v }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    kinds: Vec<(Case, u8)>,
    steps: u32,
    seed: u64,
    build: u8,
}

fn long_of(max: u16, steps: BoxedStrategy<u32>) -> BoxedStrategy<Long> {
    (prop::collection::vec((gen::case(max), 0..15u8), 2..=8), steps, any::<u64>(), 0..2u8)
        .prop_map(|(kinds, steps, seed, build)| Long { kinds, steps, seed, build })
        .boxed()
}
fn long() -> BoxedStrategy<Long> {
    long_of(40, prop_oneof![3 => 250..=600u32, 1 => 600..=3000u32].boxed())
}
fn longest() -> BoxedStrategy<Long> {
    long_of(6, (66_000..=70_000u32).boxed())
}

/// Whatever a process collects over many encodes must not show.
fn t_long(ctx: &Ctx, l: &Long) -> R {
    let b = HIST_BUILDS[l.build as usize % 2];
    let reqs: Vec<_> = l.kinds.iter().map(|(c, k)| step_request(c, *k)).collect();
    let alone: Vec<_> = reqs.iter().map(|(rq, px)| spawn(ctx, b, &[]).run(rq, px)).collect();
    let mut w = spawn(ctx, b, &[]);
    let mut r = l.seed;
    for n in 0..l.steps {
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        // runs of the same kind, now and then
        let i = (r >> 33) as usize % if (r >> 60) == 0 { 1 } else { reqs.len() };
        let (rq, px) = &reqs[i];
        same_result(&alone[i], &w.run(rq, px), &format!("[{b}] encode {n} of a process, of kind {i}, and alone"))?;
    }
    Ok(M::new(true).inner(l.steps as u64))
}

pub fn c19() -> Vec<Probe> {
    vec![
        prop("long", "hundreds to thousands of encodes of a few kinds (failing ones too) in one process, each compared with the same encode alone in a fresh process; every case counts", 160, 5000, long, t_long),
        prop("longest", "more than 65536 tiny encodes in one process; every case counts", 8, 80, longest, t_long),
        prop("races", "four encodes at the same time in ThreadSanitizer builds, results compared with those of the ordinary build; every case counts", 2000, 60_000, par_small, t_tsan).plain(),
        prop("histories", "2..8 encodes in one fresh process, some failing or panicking, forwards and backwards, each compared with the same encode alone in a fresh process; non-trivial: at least two steps", 9000, 225_000, hist, t_history),
        prop("nested", "encodes during which the writer or the image source encodes another picture on the same thread, and encodes of the same pixels at another address, compared with plain ones; non-trivial: more than five rows", 30_000, 700_000, nest, t_nested),
        prop("parallel", "four encodes on four threads, four times each, compared with the same encodes alone; every case is non-trivial", 15_000, 375_000, par, t_parallel),
    ]
}

// ---------------------------------------------------------------- C23

/// The decimal numbers of a text.
fn numbers(t: &str) -> Vec<String> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

/// Does the text of an error name its values? `who` is the variant.
fn names(text: &str, kind: &str, a: u64, b: u64) -> Result<(), String> {
    let n = numbers(text);
    let has = |v: u64| n.contains(&v.to_string());
    let at = |v: u64| n.iter().position(|s| *s == v.to_string());
    let ok = match kind {
        "InvalidAppSegment" | "AppSegmentTooLarge" | "IccTooLarge" => has(a),
        "BadImageData" => {
            // the number that is called necessary is the required one
            let need = text.split("at least").nth(1).map(|r| numbers(r).first() == Some(&b.to_string()));
            has(a) && has(b) && need != Some(false)
        }
        "ZeroImageDimensions" => has(a) && has(b) && (a == b || at(a) < at(b)),
        _ => true,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{kind} with {a} (and {b}) is described as {text:?}"))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Descr {
    kind: u8,
    a: u64,
    b: u64,
    text: String,
    v: u8,
}

fn descr() -> BoxedStrategy<Descr> {
    let n = || prop_oneof![2 => any::<u64>(), 2 => 0..300u64, 2 => any::<u32>().prop_map(|v| v as u64), 1 => any::<u16>().prop_map(|v| v as u64), 1 => (0..64u32).prop_map(|s| 1 << s)];
    (0..9u8, n(), n(), prop_oneof![4 => "[ -~]{0,30}", 2 => ".{0,12}", 1 => "[a-z ]{31,400}", 1 => "([a-z]{1,9}\n){1,5}"], gen::vidx())
        .prop_map(|(kind, a, b, text, v)| Descr { kind, a, b, text, v })
        .boxed()
}

fn t_descr(ctx: &Ctx, d: &Descr) -> R {
    let v = ctx.v(d.v as usize);
    let std = v.flags & 1 == 1;
    let (a, b) = match d.kind {
        0 => (d.a as u8 as u64, 0),
        4 => (d.a as u16 as u64, d.b as u16 as u64),
        _ => (d.a, d.b),
    };
    let e = v.error(d.kind as u32, a, b, &d.text);
    let err = |m: String| format!("[{}] {m} ({e})", v.name);
    let s = |k: &str| e[k].as_str().map(|s| s.to_string());
    let (Some(kind), Some(text)) = (s("kind"), s("text")) else {
        return Err(err("no description".into()));
    };
    let want_kind = match d.kind {
        0 => "InvalidAppSegment",
        1 => "AppSegmentTooLarge",
        2 => "IccTooLarge",
        3 => "BadImageData",
        4 => "ZeroImageDimensions",
        5..=7 if std => "IoError",
        _ => "Write",
    };
    if kind != want_kind {
        return Err(err(format!("{kind} instead of {want_kind}")));
    }
    names(&text, &kind, a, b).map_err(err)?;
    if let Some(w) = s("want") {
        if text != w {
            return Err(err(format!("described as {text:?}, the writer said {w:?}")));
        }
    }
    if kind == "IoError" {
        if s("source") != s("want") || s("source_io") != s("io") || s("io").is_none() {
            return Err(err("the io error is not the source of the error".into()));
        }
        if d.kind != 6 && s("io").as_deref() != Some(IO_KINDS[d.a as usize & 7]) {
            return Err(err("the io error has become another kind".into()));
        }
    } else if s("source").is_some() {
        return Err(err("an error without an underlying one has a source".into()));
    }
    Ok(M::new(text.len() > 3).tag(kind))
}

/// The errors of real calls.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Op(Op),
    Data { w: u16, h: u16, ct: u8, len: u16 },
    Zero { w: u16, h: u16, jct: u8 },
    Writer { case: Case, kind: u8, at: u64 },
}

fn call() -> BoxedStrategy<(Call, u8)> {
    let app = prop_oneof![
        2 => (prop_oneof![Just(0u8), 16..=255u8], gen::blob(30)).prop_map(|(nr, data)| Op::App { nr, data }),
        2 => (1..=15u8, 65534..=140_000usize).prop_map(|(nr, len)| Op::App { nr, data: Blob::Gen { len, seed: 5 } }),
    ];
    let zero = prop_oneof![(any::<u16>()).prop_map(|w| (w, 0)), any::<u16>().prop_map(|h| (0, h)), Just((0, 0))];
    let c = prop_oneof![
        4 => app.prop_map(Call::Op),
        8 => (1..=65535u16, 1..=65535u16, 0..9u8, any::<u16>()).prop_map(|(w, h, ct, len)| Call::Data { w, h, ct, len }),
        4 => (1..=30u16, 1..=30u16, 0..9u8, any::<u16>()).prop_map(|(w, h, ct, len)| Call::Data { w, h, ct, len }),
        4 => (zero, 0..4u8).prop_map(|((w, h), jct)| Call::Zero { w, h, jct }),
        4 => (gen::case(20), 0..8u8, any::<u64>()).prop_map(|(case, kind, at)| Call::Writer { case, kind, at }),
    ];
    (c, gen::vidx()).boxed()
}

fn iccs(_: &Ctx) -> Vec<(Call, u8)> {
    [MAX_ICC + 1, MAX_ICC + 2, 16_777_216, 16_777_217, 20_000_001]
        .into_iter()
        .enumerate()
        .map(|(i, len)| (Call::Op(Op::Icc(Blob::Gen { len, seed: 1 })), i as u8))
        .collect()
}

fn t_call(ctx: &Ctx, (c, vi): &(Call, u8)) -> R {
    let v = ctx.v(*vi as usize);
    let std = v.flags & 1 == 1;
    let small = Case {
        img: Image { w: 2, h: 2, pat: Pattern::Noise(3) },
        cfg: Cfg { quality: 50, sampling: None, qt: None, prog: Prog::Off, restart: 0, opt: false, density: Dens::None, meta: vec![] },
        entry: Entry::Encode(0),
    };
    let (got, kind, a, b) = match c {
        Call::Op(op) => {
            let mut rq = small.request(Sink::Vec);
            rq.ops = vec![op.clone()];
            let (rs, _) = v.run(&rq, &small.pixels());
            let (k, a) = refused(op).ok_or("not a refused call")?;
            (rs.ops[0].0.clone(), k, a, 0)
        }
        Call::Data { w, h, ct, len } => {
            let need = *w as u64 * *h as u64 * CT_BPP[*ct as usize] as u64;
            let len = *len as u64 % need.min(65536);
            let mut rq = small.request(Sink::Vec);
            (rq.w, rq.h, rq.entry) = (*w, *h, Entry::Encode(*ct));
            let (rs, _) = v.run(&rq, &vec![7u8; len as usize]);
            (rs.outcome, "BadImageData", len, need)
        }
        Call::Zero { w, h, jct } => {
            let mut rq = small.request(Sink::Vec);
            (rq.w, rq.h, rq.entry) = (*w, *h, Entry::Custom { jct: *jct, mode: BufMode::Normal });
            let (rs, _) = v.run(&rq, &[]);
            (rs.outcome, "ZeroImageDimensions", *w as u64, *h as u64)
        }
        Call::Writer { case, kind, at } => {
            let px = case.pixels();
            let full = ctx.encode_px(v, case, &px)?;
            let n = at % full.len() as u64;
            let (rs, _) = v.run(&case.request(Sink::Plain(Fault::AtByte { n, kind: *kind })), &px);
            carries(&rs.outcome, std, *kind, &format!("fault at byte {n}")).map_err(|e| format!("[{}] {e}", v.name))?;
            (rs.outcome, if std { "IoError" } else { "Write" }, 0, 0)
        }
    };
    let Outcome::Err(e) = got else {
        return Err(format!("[{}] {} gave {got:?}", v.name, match c {
            Call::Op(o) => brief(o),
            c => format!("{c:?}"),
        }));
    };
    if e.kind != kind {
        return Err(format!("[{}] {} instead of {kind}", v.name, e.kind));
    }
    names(&e.text, kind, a, b).map_err(|m| format!("[{}] {m}", v.name))?;
    if e.has_source != (kind == "IoError") {
        return Err(format!("[{}] {kind}: source present: {}", v.name, e.has_source));
    }
    Ok(M::new(true).tag(kind))
}

pub fn c23() -> Vec<Probe> {
    vec![
        prop("values", "error values of every variant with arbitrary numbers, texts, kinds and codes of io errors; non-trivial: a text of more than three characters", 60_000, 1_500_000, descr, t_descr),
        prop("calls", "errors of real refused calls, refused pictures and failing writers; every case is non-trivial", 40_000, 1_000_000, call, t_call),
        list("profiles", "colour profiles beyond the limit", iccs, t_call),
    ]
}

//! Properties of the stream's structure and of the configuration.
use super::*;
use crate::gen;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use vcore::refmodel as rm;

const RULE: &str = "image pattern x size x pixel format (or user image source) x quality x tables x sampling x scans x restart interval x optimization x metadata x density, generated with proptest; non-trivial: more than one block and a non-zero AC coefficient in the output";

fn case_v() -> BoxedStrategy<(Case, u8)> {
    (gen::case(72), gen::vidx()).boxed()
}
fn big_v() -> BoxedStrategy<(Case, u8)> {
    (gen::case_big(), gen::vidx()).boxed()
}

// ---------------------------------------------------------------- C01

/// colour space codes of libjpeg by JPEG colour type
const LJ_SPACE: [i32; 4] = [1, 3, 4, 5];

fn independent_decoders(ctx: &Ctx, c: &Case, d: &[u8]) -> Result<(), String> {
    let (w, h) = (c.img.w as usize, c.img.h as usize);
    let jct = c.entry.jct() as usize;
    if let Some(l) = &ctx.libjpeg {
        if w <= 65500 && h <= 65500 {
            let r = l.decode(d, w, h, LJ_SPACE[jct])?;
            if r.warnings != 0 {
                return Err(format!("libjpeg warns: {}", r.msg));
            }
            if (r.w, r.h, r.comps) != (w, h, JCT_COMPS[jct]) {
                return Err(format!("libjpeg sees {}x{} with {} components", r.w, r.h, r.comps));
            }
            if r.space != LJ_SPACE[jct] {
                return Err(format!("libjpeg recognises colour space {} instead of {}", r.space, LJ_SPACE[jct]));
            }
        }
    }
    let mut dec = jpeg_decoder::Decoder::new(d);
    let px = dec.decode().map_err(|e| format!("jpeg-decoder: {e}"))?;
    let i = dec.info().ok_or("jpeg-decoder: no information")?;
    let n = [1, 3, 4, 4][jct];
    if (i.width as usize, i.height as usize) != (w, h) || px.len() != w * h * n {
        return Err(format!("jpeg-decoder sees {}x{} with {} bytes", i.width, i.height, px.len()));
    }
    Ok(())
}

fn t_stream(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (d, j) = ctx.encode_parse(ctx.v(*v as usize), c)?;
    independent_decoders(ctx, c, &d)?;
    let mut m = tags(M::new(nontrivial(&j)), c);
    if j.has_ff00(&d) {
        m = m.tag("byte stuffing");
    }
    if j.scans.iter().any(|s| !s.restarts.is_empty()) {
        m = m.tag("restart markers");
    }
    Ok(m)
}

pub fn c01() -> Vec<Probe> {
    vec![
        prop("stream", RULE, 180_000, 5_000_000, case_v, t_stream),
        prop("stream_big", "as above with thousands of units or sides up to 65535", 1200, 30_000, big_v, t_stream),
        list("stream_extreme", "hand-picked extremes: largest sides, deep Huffman trees, long codes", extremes, |ctx, c: &Case| {
            let mut r = Ok(M::default());
            for v in ctx.variants.iter().take(if ctx.thorough { 5 } else { 2 }) {
                let (d, j) = ctx.encode_parse(v, c)?;
                independent_decoders(ctx, c, &d)?;
                r = Ok(tags(M::new(nontrivial(&j)), c));
            }
            r
        }),
    ]
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alt {
    case: Case,
    prog: Prog,
    opt: bool,
    restart: u16,
    density: Dens,
    meta: Vec<Op>,
    v: (u8, u8),
}

fn alt(big: bool) -> BoxedStrategy<Alt> {
    let (c, r) = if big { (gen::case_big(), gen::restart_big()) } else { (gen::case(72), gen::restart()) };
    (c, gen::prog(), any::<bool>(), r, gen::density(), gen::meta(), (gen::vidx(), gen::vidx()))
        .prop_map(|(case, prog, opt, restart, density, meta, v)| Alt { case, prog, opt, restart, density, meta, v })
        .boxed()
}
fn alt_small() -> BoxedStrategy<Alt> {
    alt(false)
}
fn alt_big() -> BoxedStrategy<Alt> {
    alt(true)
}

fn t_mode(ctx: &Ctx, a: &Alt) -> R {
    let mut b = a.case.clone();
    b.cfg.prog = a.prog;
    b.cfg.opt = a.opt;
    b.cfg.restart = a.restart;
    b.cfg.density = a.density;
    b.cfg.meta = a.meta.clone();
    let (_, x) = ctx.encode_parse(ctx.v(a.v.0 as usize), &a.case)?;
    let (_, y) = ctx.encode_parse(ctx.v(a.v.1 as usize), &b)?;
    same_picture(&x, &y).map_err(|e| format!("{} against {}: {e}", class(&a.case), class(&b)))?;
    let differ = class(&a.case) != class(&b) || a.case.cfg.restart != b.cfg.restart || a.case.cfg.prog != b.cfg.prog;
    Ok(M::new(nontrivial(&x) && differ)
        .tag(class(&a.case))
        .tag(class(&b))
        .tag(if differ { "different modes" } else { "same mode" }))
}

pub fn c03() -> Vec<Probe> {
    vec![
        prop(
            "modes",
            "a case and a second set of lossless options (scans, optimization, restart interval, metadata); non-trivial: the modes differ and the picture has non-zero AC coefficients",
            100_000,
            2_500_000,
            alt_small,
            t_mode,
        ),
        prop("modes_big", "as above with large images", 300, 7500, alt_big, t_mode),
    ]
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    img: Image,
    quality: u8,
    ops: Vec<Op>,
    entry: Entry,
    v: u8,
}

fn calls() -> BoxedStrategy<Calls> {
    (gen::image(64), gen::quality(), prop::collection::vec(gen::any_op(), 0..9), gen::entry(), gen::vidx())
        .prop_map(|(img, quality, ops, entry, v)| Calls { img, quality, ops, entry, v })
        .boxed()
}

pub const MAX_APP: usize = 65533;
pub const MAX_ICC: usize = 16_707_345;

/// Documented result of one setter call.
fn check_op(op: &Op, o: &Outcome) -> Result<(), String> {
    let bad = |want: &str| Err(format!("{op:?} gave {o:?}, expected {want}"));
    match op {
        Op::Scans(n) if !(2..=64).contains(n) => {
            if matches!(o, Outcome::Panic(_)) {
                Ok(())
            } else {
                bad("the documented panic")
            }
        }
        Op::App { nr, .. } if *nr == 0 || *nr > 15 => match o {
            Outcome::Err(e) if e.kind == "InvalidAppSegment" && e.a == *nr as u64 => Ok(()),
            _ => bad("InvalidAppSegment"),
        },
        Op::App { data, .. } if data.len() > MAX_APP => match o {
            Outcome::Err(e) if e.kind == "AppSegmentTooLarge" && e.a == data.len() as u64 => Ok(()),
            _ => bad("AppSegmentTooLarge"),
        },
        Op::Icc(b) if b.len() > MAX_ICC => match o {
            Outcome::Err(e) if e.kind == "IccTooLarge" && e.a == b.len() as u64 => Ok(()),
            _ => bad("IccTooLarge"),
        },
        _ if o.is_ok() => Ok(()),
        _ => bad("success"),
    }
}

fn accepted(op: &Op) -> bool {
    match op {
        Op::Scans(n) => (2..=64).contains(n),
        Op::App { nr, data } => (1..=15).contains(nr) && data.len() <= MAX_APP,
        Op::Icc(b) => b.len() <= MAX_ICC,
        _ => true,
    }
}

fn t_total(ctx: &Ctx, c: &Calls) -> R {
    let px = c.img.pixels(c.entry.nch());
    let rq = Request {
        quality: c.quality,
        ops: c.ops.clone(),
        entry: c.entry.clone(),
        w: c.img.w,
        h: c.img.h,
        sink: Sink::Vec,
        snaps: true,
    };
    let mut nt = false;
    // one build with all internal assertions, one other
    let pick = [&ctx.variants[1 + 2 * (c.v as usize % 2)], ctx.v(c.v as usize / 2)];
    for v in pick {
        let (rs, out) = v.run(&rq, &px);
        for (op, (o, _)) in c.ops.iter().zip(&rs.ops) {
            check_op(op, o).map_err(|e| format!("[{}] {e}", v.name))?;
        }
        if !rs.outcome.is_ok() {
            return Err(format!("[{}] encode failed: {:?}", v.name, rs.outcome));
        }
        let j = vcore::jpeg::parse(&out).map_err(|e| format!("[{}] broken stream: {e}", v.name))?;
        nt |= nontrivial(&j);
    }
    let refused = c.ops.iter().any(|o| !accepted(o));
    Ok(M::new(nt && !c.ops.is_empty()).inner(1).tag(if refused { "with refused calls" } else { "valid calls only" }).tag(format!(
        "{} calls",
        c.ops.len()
    )))
}

pub(super) fn plain_cfg() -> Cfg {
    Cfg {
        quality: 100,
        sampling: Some(0),
        qt: Some(gen::ones()),
        prog: Prog::Off,
        restart: 0,
        opt: false,
        density: Dens::None,
        meta: vec![],
    }
}

/// Fixed list of extreme but valid encodes.
fn extremes(ctx: &Ctx) -> Vec<Case> {
    let s = ctx.seed;
    let mut v = vec![];
    let modes = [
        (Prog::Off, false, 0u16),
        (Prog::Off, true, 0),
        (Prog::Off, true, 1),
        (Prog::Scans(64), false, 3),
        (Prog::Scans(33), true, 0),
        (Prog::Scans(2), true, 65535),
        (Prog::Off, false, 65535),
        (Prog::On, true, 8),
    ];
    // smallest image in all modes
    for (prog, opt, restart) in modes {
        for ct in [0u8, 1, 6, 7] {
            v.push(Case {
                img: Image { w: 1, h: 1, pat: Pattern::Noise(s ^ ct as u64) },
                cfg: Cfg { prog, opt, restart, sampling: Some((s % 16) as u8), ..plain_cfg() },
                entry: Entry::Encode(ct),
            });
        }
    }
    // extreme coefficients everywhere
    for (i, (prog, opt, restart)) in modes.into_iter().enumerate() {
        for pat in [Pattern::Basis(s + i as u64), Pattern::Extremes(s + i as u64), Pattern::BlockFlat(s + i as u64)] {
            v.push(Case {
                img: Image { w: 200, h: 203, pat },
                cfg: Cfg { prog, opt, restart, sampling: Some(i as u8), ..plain_cfg() },
                entry: Entry::Encode((i % 9) as u8),
            });
        }
    }
    // longest sides
    for (i, (prog, opt, restart)) in modes.into_iter().enumerate() {
        for (w, h) in [(65535, 1), (1, 65535)] {
            v.push(Case {
                img: Image { w, h, pat: Pattern::Mixed(s + i as u64) },
                cfg: Cfg { prog, opt, restart, sampling: Some((i * 2) as u8), ..plain_cfg() },
                entry: Entry::Encode([1, 0, 6, 2, 8, 4, 5, 7][i]),
            });
        }
    }
    // Fibonacci symbol frequencies: codes longer than 16 bits before limiting
    let q8 = || Some((QT::Custom(vec![8; 64]), QT::Custom(vec![8; 64])));
    for (n, w, h) in [(17u8, 512u16, 512u16), (19, 800, 800), (20, 1000, 1024)] {
        v.push(Case {
            img: Image { w, h, pat: Pattern::Fib { n, dense: false, seed: s } },
            cfg: Cfg { qt: q8(), opt: true, ..plain_cfg() },
            entry: Entry::Encode(0),
        });
    }
    for (n, w, h) in [(26u8, 1200u16, 1200u16), (30, 2400, 1900)] {
        v.push(Case {
            img: Image { w, h, pat: Pattern::Fib { n, dense: true, seed: s } },
            cfg: Cfg { qt: q8(), opt: true, restart: 7, ..plain_cfg() },
            entry: Entry::Encode(0),
        });
    }
    // more than 65536 restart intervals in a scan
    for (i, (prog, opt)) in [(Prog::Off, false), (Prog::Off, true), (Prog::Scans(2), false), (Prog::Scans(3), true)].into_iter().enumerate() {
        v.push(Case {
            img: Image { w: 2080, h: 2080 - i as u16, pat: Pattern::BlockFlat(s) },
            cfg: Cfg { prog, opt, restart: 1, ..plain_cfg() },
            entry: Entry::Encode(0),
        });
    }
    v.push(Case {
        // F(30) blocks
        img: Image { w: 10912, h: 4880, pat: Pattern::Fib { n: 33, dense: true, seed: s } },
        cfg: Cfg { qt: q8(), opt: true, ..plain_cfg() },
        entry: Entry::Encode(0),
    });
    if ctx.thorough {
        for (prog, opt) in [(Prog::Off, false), (Prog::Scans(5), true)] {
            v.push(Case {
                img: Image { w: 9000, h: 9000, pat: Pattern::Noise(s) },
                cfg: Cfg { prog, opt, sampling: Some(3), ..plain_cfg() },
                entry: Entry::Encode(1),
            });
        }
    }
    v
}

fn t_extreme(ctx: &Ctx, c: &Case) -> R {
    let mut m = M::default();
    let px = c.pixels();
    let big = px.len() > 8_000_000;
    for v in &ctx.variants {
        if big && !ctx.thorough && v.name != "scalar-checked" {
            continue;
        }
        let d = ctx.encode_px(v, c, &px)?;
        let j = ctx.parsed(&d, v, c)?;
        m = tags(M::new(nontrivial(&j)), c).inner(4);
    }
    Ok(m)
}

/// (side, up to the end of the stream): more symbols for one Huffman table than 32 bits count
fn giants(ctx: &Ctx) -> Vec<(u16, bool)> {
    vec![(38400, ctx.thorough)]
}

fn t_giant(ctx: &Ctx, (side, full): &(u16, bool)) -> R {
    let skipped = |why: &str| Ok(M::new(false).tag(format!("not run: {why}")));
    let mem = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let kb = mem.lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().split(' ').next()?.parse::<u64>().ok());
    // 192 bytes per block are held
    let need = *side as u64 * *side as u64 / 64 * 4 * 192 * 5 / 4 / 1024;
    if kb.unwrap_or(0) < need {
        return skipped("too little memory");
    }
    let mode = if *full { "full" } else { "stop" };
    let mut ch = std::process::Command::new(format!("{}/giant", ctx.libs))
        .args([&side.to_string(), mode])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("HARNESS ERROR: giant: {e}");
            std::process::exit(2)
        });
    let limit = if *full { 1800 } else { 400 };
    let t = std::time::Instant::now();
    while ch.try_wait().ok().flatten().is_none() {
        if t.elapsed().as_secs() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return skipped("too slow");
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let o = ch.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    match o.trim().strip_prefix("RESULT ") {
        // no verdict of its own: out of memory
        None => skipped("the process was ended"),
        Some("error stop") if !full => Ok(M::new(true).tag("up to the tables")),
        Some(r) if *full && r.starts_with("success ") => Ok(M::new(true).tag("complete")),
        Some(r) => Err(format!("CMYK {side}x{side}, optimized tables: {r}")),
    }
}

pub fn c04() -> Vec<Probe> {
    vec![
        prop(
            "setters",
            "sequences of up to 8 setter calls with valid and invalid arguments, then an encode, in a build with overflow checks and internal assertions and in another build; non-trivial: at least one call and non-zero AC coefficients",
            150_000,
            3_750_000,
            calls,
            t_total,
        ),
        prop("encode_big", "full configurations on large images", 1000, 25_000, big_v, |ctx, (c, v): &(Case, u8)| {
            let var = &ctx.variants[1 + 2 * (*v as usize % 2)];
            let (_, j) = ctx.encode_parse(var, c)?;
            Ok(tags(M::new(nontrivial(&j)), c))
        }),
        list("giant", "one picture with more than 2^32 symbols for a Huffman table (CMYK 38400x38400, 18 GB), in a build with overflow checks, up to the written tables (thorough: to the end); only with enough memory; non-trivial: it was run", giants, t_giant),
        list("extremes", "hand-picked extremes on every build: largest sides, extreme coefficients, Huffman trees of depth > 16 and > 32", extremes, t_extreme),
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meta {
    case: Case,
    ops: Vec<Op>,
    v: u8,
}

/// Well-known identifiers under their usual and unusual segment numbers, bare or with something behind them.
fn known() -> BoxedStrategy<Op> {
    let ids: Vec<(u8, &'static [u8])> = vec![
        (1, b"JFIF\0\x01\x02\x00\0\x01\0\x01\0\0"),
        (1, b"JFXX\0"),
        (1, b"Exif\0\0"),
        (1, b"Exif\0\0II*\0\x08\0\0\0"),
        (1, b"http://ns.adobe.com/xap/1.0/\0"),
        (1, b"http://ns.adobe.com/xmp/extension/\0"),
        (2, b"ICC_PROFILE\0\x01\x01"),
        (2, b"ICC_PROFILE\0\x02\x02"),
        (2, b"MPF\0"),
        (2, b"FPXR\0"),
        (3, b"META\0"),
        (11, b"JP\0\x01"),
        (12, b"Ducky\0\x01\0\x04\0\0\0\x32"),
        (13, b"Photoshop 3.0\x008BIM"),
        (14, b"Adobe"),
        (14, b"Adobe\0\x64\0\0\0\0\0"),
        (14, b"Adobe\0\x64\x80\0\0\0\x02"),
        (15, b"text"),
        (4, b"\xff\xd8\xff\xe0"),
        (5, b"\xff\xff\xff\xff"),
        (6, b"\0\0\0\0"),
    ];
    (prop::sample::select(ids), prop_oneof![2 => Just(0u8), 1 => 1..=15u8], prop_oneof![Just(vec![]), prop::collection::vec(any::<u8>(), 0..40)])
        .prop_map(|((nr, id), other, tail)| {
            let mut d = id.to_vec();
            d.extend(tail);
            Op::App { nr: if other == 0 { nr } else { other }, data: Blob::Raw(d) }
        })
        .boxed()
}

/// Hundreds of metadata calls.
fn many_meta() -> BoxedStrategy<Meta> {
    let one = prop_oneof![
        8 => (1..=15u8, gen::blob(20)).prop_map(|(nr, data)| Op::App { nr, data }),
        1 => (1..=40usize, any::<u64>()).prop_map(|(len, seed)| Op::Icc(Blob::Gen { len, seed })),
        1 => known(),
    ];
    let n = prop_oneof![2 => 7..=40usize, 1 => 41..=300usize, 1 => gen::near(17, 1200).prop_map(|x| x as usize)];
    (n, any::<u8>()).prop_flat_map(move |(n, _)| (prop::collection::vec(one.clone(), n), gen::entry(), gen::vidx()))
        .prop_map(|(ops, entry, v)| {
            let case = Case { img: Image { w: 5, h: 3, pat: Pattern::Noise(1) }, cfg: plain_cfg(), entry };
            Meta { case, ops, v }
        })
        .boxed()
}

fn meta_case() -> BoxedStrategy<Meta> {
    let b = prop_oneof![6 => gen::blob(80), 3 => gen::blob(2000), 2 => gen::blob(70000), 1 => (65520..=65533usize, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed })].boxed();
    let icc = prop_oneof![
        4 => gen::blob(300),
        3 => (65519 * 2 - 3..=65519 * 2 + 3usize, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        2 => (65516..=65523usize, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        2 => (0..=400_000usize, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ]
    .boxed();
    // payloads that look like the encoder's own segments
    let fake = prop_oneof![
        Just(Op::App { nr: 14, data: Blob::Raw(b"Adobe\0\x64\0\0\0\0\x01".to_vec()) }),
        Just(Op::App { nr: 14, data: Blob::Raw(b"Adobe\0\0\0\0\0\0\x02".to_vec()) }),
        Just(Op::App { nr: 1, data: Blob::Raw(b"Exif\0\0MM".to_vec()) }),
        Just(Op::App { nr: 1, data: Blob::Raw(vec![0xFF, 0xD9, 0xFF, 0xDA, 0xFF, 0xC0]) }),
        known(),
        known(),
        known(),
    ];
    let nr = prop_oneof![8 => 1..=15u8, 1 => Just(0u8), 1 => 16..=255u8];
    let op = prop_oneof![
        6 => (nr, b).prop_map(|(nr, data)| Op::App { nr, data }),
        2 => icc.prop_map(Op::Icc),
        1 => fake,
        2 => gen::any_op(),
    ];
    (gen::image(24), gen::cfg(), gen::entry(), prop::collection::vec(op, 1..7), any::<(u8, u8)>(), gen::vidx())
        .prop_map(|(img, mut cfg, entry, mut ops, (rep, at), v)| {
            if rep < 90 {
                // the same call once more
                let x = ops[rep as usize % ops.len()].clone();
                ops.insert(at as usize % (ops.len() + 1), x);
            }
            cfg.meta = vec![];
            Meta { case: Case { img, cfg, entry }, ops, v }
        })
        .boxed()
}

/// Checks the header segments against the accepted metadata calls.
fn check_meta(d: &[u8], j: &Jpeg, jct: u8, density: Dens, ops: &[&Op]) -> Result<u64, String> {
    let first_scan = j.scans[0].range.0;
    let mut apps: Vec<(u8, &[u8])> = vec![];
    for s in &j.segs {
        if (0xE0..=0xEF).contains(&s.0) {
            if s.1 > first_scan {
                return Err("application segment after the first scan".into());
            }
            apps.push((s.0 - 0xE0, &d[s.2 .0..s.2 .1]));
        }
    }
    if d.len() < 4 || d[2..4] != [0xFF, 0xE0] {
        return Err("the stream does not start with SOI, APP0".into());
    }
    let (u, x, y) = match density {
        Dens::None => (0u8, 1u16, 1u16),
        Dens::Inch(x, y) => (1, x, y),
        Dens::Cm(x, y) => (2, x, y),
    };
    let jf = apps[0].1;
    let mut want = b"JFIF\0\x01".to_vec();
    want.push(*jf.get(6).unwrap_or(&0));
    want.push(u);
    want.extend_from_slice(&x.to_be_bytes());
    want.extend_from_slice(&y.to_be_bytes());
    want.extend_from_slice(&[0, 0]);
    if jf != &want[..] || jf[6] > 2 {
        return Err(format!("JFIF header is {jf:02x?} for {density:?}"));
    }
    let mut rest = apps[1..].to_vec();
    if jct >= 2 {
        let t = if jct == 2 { 0 } else { 2 };
        let k = rest
            .iter()
            .position(|(n, p)| *n == 14 && p.len() == 12 && &p[..5] == b"Adobe" && p[11] == t)
            .ok_or("no Adobe marker with the right transform")?;
        rest.remove(k);
    }
    let mut i = 0;
    let mut n = 0;
    for op in ops {
        match op {
            Op::App { nr, data } => {
                let b = data.bytes();
                match rest.get(i) {
                    Some((m, p)) if m == nr && *p == &b[..] => {}
                    Some((m, p)) => {
                        return Err(format!("expected APP{nr} with {} bytes, found APP{m} with {} bytes", b.len(), p.len()))
                    }
                    None => return Err(format!("APP{nr} with {} bytes is missing", b.len())),
                }
                i += 1;
                n += 1;
            }
            Op::Icc(b) => {
                let b = b.bytes();
                if b.is_empty() {
                    // no chunk, or one empty chunk
                    if matches!(rest.get(i), Some((2, p)) if *p == b"ICC_PROFILE\0\x01\x01") {
                        i += 1;
                    }
                    continue;
                }
                let cnt = match rest.get(i) {
                    Some((2, p)) if p.len() >= 14 && &p[..12] == b"ICC_PROFILE\0" => p[13] as usize,
                    _ => return Err("ICC chunk expected".into()),
                };
                let mut all = vec![];
                for s in 1..=cnt {
                    match rest.get(i) {
                        Some((2, p))
                            if p.len() >= 14 && &p[..12] == b"ICC_PROFILE\0" && p[12] as usize == s && p[13] as usize == cnt =>
                        {
                            all.extend_from_slice(&p[14..]);
                        }
                        _ => return Err(format!("ICC chunk {s} of {cnt} is missing or misnumbered")),
                    }
                    i += 1;
                }
                if all != b {
                    return Err(format!("ICC profile of {} bytes reassembles to {} different bytes", b.len(), all.len()));
                }
                n += 1;
            }
            _ => {}
        }
    }
    if i != rest.len() {
        return Err(format!("{} application segments nobody asked for", rest.len() - i));
    }
    Ok(n)
}

fn t_meta(ctx: &Ctx, m: &Meta) -> R {
    let v = ctx.v(m.v as usize);
    let mut rq = m.case.request(Sink::Vec);
    rq.ops.extend(m.ops.iter().cloned());
    let (rs, out) = v.run(&rq, &m.case.pixels());
    for (op, (o, _)) in rq.ops.iter().zip(&rs.ops) {
        check_op(op, o)?;
    }
    if !rs.outcome.is_ok() {
        return Err(format!("encode failed: {:?}", rs.outcome));
    }
    let j = ctx.parsed(&out, v, &m.case)?;
    let dens = rq.ops.iter().rev().find_map(|o| if let Op::Density(d) = o { Some(*d) } else { None }).unwrap_or(Dens::None);
    let ok: Vec<&Op> = rq.ops.iter().filter(|o| accepted(o)).collect();
    let n = check_meta(&out, &j, m.case.entry.jct(), dens, &ok).map_err(|e| format!("[{}] {e}", v.name))?;
    let chunks = ok.iter().map(|o| if let Op::Icc(b) = o { b.len().div_ceil(65519) } else { 0 }).max().unwrap_or(0);
    Ok(M::new(n > 0).tag(format!("{} metadata items", n.min(6))).tag(format!("ICC chunks {}", chunks.min(3))))
}

fn icc_lengths(ctx: &Ctx) -> Vec<(usize, u8)> {
    let mut v = vec![];
    for k in [1usize, 2, 3, 9, 10, 100, 127, 128, 129, 200, 253, 254, 255] {
        for d in [-1i64, 0, 1] {
            let n = (k as i64 * 65519 + d) as usize;
            if n <= MAX_ICC && (k < 20 || d == 0 || ctx.thorough || k == 254) {
                v.push((n, (k % 5) as u8));
            }
        }
    }
    v
}

pub fn c10() -> Vec<Probe> {
    vec![
        prop(
            "segments",
            "sequences of up to 6 metadata calls (valid, invalid, look-alikes of the encoder's own segments, payloads up to the limits) mixed with other setters; non-trivial: at least one accepted item is found in the header",
            120_000,
            3_000_000,
            meta_case,
            t_meta,
        ),
        prop("many", "sequences of 7 to 1200 metadata calls; non-trivial as above", 3000, 60_000, many_meta, t_meta),
        list("icc_sizes", "ICC profiles at chunk boundaries up to the maximum of 255 chunks", icc_lengths, |ctx, (len, ct): &(usize, u8)| {
            let m = Meta {
                case: Case {
                    img: Image { w: 3, h: 3, pat: Pattern::Noise(*len as u64) },
                    cfg: plain_cfg(),
                    entry: Entry::Encode(*ct),
                },
                ops: vec![
                    Op::App { nr: 3, data: Blob::Raw(vec![1]) },
                    Op::Icc(Blob::Gen { len: *len, seed: 7 }),
                    Op::App { nr: 4, data: Blob::Raw(vec![2]) },
                ],
                v: *ct,
            };
            t_meta(ctx, &m)
        }),
    ]
}

// ---------------------------------------------------------------- C13

fn restart_case() -> BoxedStrategy<(Case, u8)> {
    let r = prop_oneof![1 => Just(0u16), 6 => 1..=4u16, 4 => 5..=20u16, 3 => 20..=140u16, 1 => any::<u16>()];
    (gen::case(100), r, gen::vidx())
        .prop_map(|(mut c, r, v)| {
            c.cfg.restart = r;
            (c, v)
        })
        .boxed()
}
fn restart_case_big() -> BoxedStrategy<(Case, u8)> {
    let r = prop_oneof![
        2 => 1..=3u16,
        3 => 4..=300u16,
        3 => 250..=260u16,
        3 => 300..=9000u16,
        2 => prop_oneof![Just(32767u16), Just(32768), Just(4096), Just(512), Just(65535), Just(127), Just(128)],
    ];
    (gen::case_big(), r, gen::vidx())
        .prop_map(|(mut c, r, v)| {
            c.cfg.restart = r;
            (c, v)
        })
        .boxed()
}

fn restart_case_huge() -> BoxedStrategy<(Case, u8)> {
    (gen::case_huge(), gen::vidx()).boxed()
}

fn check_restarts(j: &Jpeg, n: u16) -> Result<u64, String> {
    if n == 0 {
        if !j.dri.is_empty() && j.dri.iter().any(|d| *d != 0) {
            return Err("restart interval declared although none is set".into());
        }
        if j.scans.iter().any(|s| !s.restarts.is_empty()) {
            return Err("restart marker although no interval is set".into());
        }
        return Ok(0);
    }
    let mut total = 0;
    for (i, s) in j.scans.iter().enumerate() {
        if s.dri != n {
            return Err(format!("scan {i} is under a declared restart interval of {} instead of {n}", s.dri));
        }
        let want = (s.units - 1) / n as u64;
        if s.restarts.len() as u64 != want {
            return Err(format!("scan {i}: {} restart markers in {} units, expected {want}", s.restarts.len(), s.units));
        }
        for (k, r) in s.restarts.iter().enumerate() {
            if *r as usize != k % 8 {
                return Err(format!("scan {i}: restart marker {k} is numbered {r}"));
            }
        }
        total += want;
    }
    Ok(total)
}

fn t_restart(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (_, j) = ctx.encode_parse(ctx.v(*v as usize), c)?;
    let n = check_restarts(&j, c.cfg.restart)?;
    // prediction resets must not change the picture
    let mut p = c.clone();
    p.cfg.restart = 0;
    let (_, k) = ctx.encode_parse(ctx.v(*v as usize / 5), &p)?;
    check_restarts(&k, 0)?;
    same_picture(&j, &k)?;
    Ok(tags(M::new(n > 0), c).inner(1).tag(match n {
        0 => "no marker",
        1..=8 => "1-8 markers",
        9..=100 => "9-100 markers",
        _ => ">100 markers",
    }))
}

fn intervals(ctx: &Ctx) -> Vec<(Case, u8)> {
    // every interval up to the number of units and beyond, in each coding mode
    let mut v = vec![];
    for (m, (prog, opt, sampling)) in
        [(Prog::Off, false, 0u8), (Prog::Off, false, 3), (Prog::Off, true, 0), (Prog::Off, false, 5), (Prog::Scans(3), false, 1), (Prog::Scans(3), true, 0)]
            .into_iter()
            .enumerate()
    {
        for n in (0..=100u16).chain([101, 200, 255, 256, 257, 1000, 32767, 32768, 65534, 65535]) {
            for ct in [0u8, 1, 7] {
                v.push((
                    Case {
                        img: Image { w: 73, h: 70, pat: Pattern::Noise(ctx.seed + n as u64) },
                        cfg: Cfg { prog, opt, restart: n, sampling: Some(sampling), quality: 80, qt: None, ..plain_cfg() },
                        entry: Entry::Encode(ct),
                    },
                    (n as u8).wrapping_add(m as u8) % 25,
                ));
            }
        }
    }
    v
}

pub fn c13() -> Vec<Probe> {
    vec![
        list("all_intervals", "every interval 0..=100 and powers of two up to 65535 in six coding modes on a 73x70 image; non-trivial: at least one restart marker", intervals, t_restart),
        prop("restarts", "full configurations with restart intervals; non-trivial: at least one restart marker", 120_000, 3_000_000, restart_case, t_restart),
        prop("restarts_big", "large images, up to hundreds of thousands of units and intervals up to 65535", 500, 12_500, restart_case_big, t_restart),
        prop("restarts_huge", "more than 65536 units in a scan; non-trivial: at least one restart marker", 60, 3000, restart_case_huge, t_restart),
    ]
}

// ---------------------------------------------------------------- C14

fn check_tables(c: &Case, j: &Jpeg) -> Result<(), String> {
    let want = rm::qtables(&c.cfg);
    for (ci, sel) in rm::comp_qsel(c.entry.jct()).iter().enumerate() {
        let got = j.q(ci);
        if *got != want[*sel] {
            let k = (0..64).find(|k| got[*k] != want[*sel][*k]).unwrap();
            return Err(format!(
                "component {ci}: quantizer of coefficient {k} (row major) is {} instead of {}",
                got[k], want[*sel][k]
            ));
        }
    }
    Ok(())
}

fn t_tables(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (_, j) = ctx.encode_parse(ctx.v(*v as usize), c)?;
    check_tables(c, &j)?;
    let (a, b) = c.cfg.qtypes();
    let kind = |q: &QT| if matches!(q, QT::Custom(_)) { "custom" } else { "preset" };
    Ok(M::new(a != QT::Preset(0) || b != QT::Preset(0)).tag(format!("{}/{}", kind(&a), kind(&b))))
}

fn all_presets(_: &Ctx) -> Vec<(u8, u8)> {
    (0..9u8).flat_map(|p| (0..=255u8).map(move |q| (p, q))).collect()
}

/// every preset at every quality as the luma and as the chroma table
fn t_preset(ctx: &Ctx, (p, q): &(u8, u8)) -> R {
    let mut inner = 0;
    let mut prev: Option<Vec<[u16; 64]>> = None;
    for (a, b, quality) in [(*p, (*p + 1) % 9, *q), ((*p + 4) % 9, *p, *q), (*p, *p, q.wrapping_sub(1))] {
        for ct in [0u8, 1, 6, 8] {
            let c = Case {
                img: Image { w: 9, h: 9, pat: Pattern::Noise(*q as u64) },
                cfg: Cfg { quality, qt: Some((QT::Preset(a), QT::Preset(b))), sampling: None, ..plain_cfg() },
                entry: Entry::Encode(ct),
            };
            let v = ctx.v(*p as usize + *q as usize + ct as usize);
            let (_, j) = ctx.encode_parse(v, &c)?;
            check_tables(&c, &j).map_err(|e| format!("preset {a}/{b} quality {quality}: {e}"))?;
            inner += 1;
            if ct == 1 && a == *p && b == *p && *q > 0 {
                // one quality step below, against this quality
                let lower = [*j.q(0), *j.q(1)];
                let mut c2 = c.clone();
                c2.cfg.quality = *q;
                let (_, j2) = ctx.encode_parse(v, &c2)?;
                for (t, low) in lower.iter().enumerate() {
                    for k in 0..64 {
                        if j2.q(t)[k] > low[k] {
                            return Err(format!("raising quality to {q} makes entry {k} of preset {p} coarser"));
                        }
                    }
                }
                prev = Some(lower.to_vec());
            }
        }
    }
    let _ = prev;
    Ok(M::new(true).inner(inner))
}

/// Custom tables that hold a preset's base entries: (preset, quality, transposed or in zig-zag order)
fn known_tables(_: &Ctx) -> Vec<(u8, u8, u8)> {
    let q = [0u8, 1, 25, 49, 50, 51, 75, 90, 99, 100, 101, 255];
    (0..9u8).flat_map(|p| q.iter().flat_map(move |q| (0..3u8).map(move |o| (p, *q, o)))).collect()
}

fn t_known(ctx: &Ctx, (p, q, o): &(u8, u8, u8)) -> R {
    let order = |t: [u16; 64]| -> QT {
        QT::Custom(match o {
            0 => t.to_vec(),
            1 => (0..64).map(|i| t[i % 8 * 8 + i / 8]).collect(),
            _ => (0..64).map(|i| t[vcore::jpeg::ZZ[i] as usize]).collect(),
        })
    };
    let a = order(rm::qtable(&QT::Preset(*p), 50, true));
    let b = order(rm::qtable(&QT::Preset(*p), 50, false));
    let mut n = 0;
    for (x, y) in [(a.clone(), b.clone()), (b.clone(), a.clone()), (a.clone(), a.clone()), (QT::Preset(*p), a), (b, QT::Preset(*p))] {
        for ct in [0u8, 1, 6] {
            let c = Case {
                img: Image { w: 9, h: 9, pat: Pattern::Noise(*q as u64) },
                cfg: Cfg { quality: *q, qt: Some((x.clone(), y.clone())), sampling: None, ..plain_cfg() },
                entry: Entry::Encode(ct),
            };
            let (_, j) = ctx.encode_parse(ctx.v(n), &c)?;
            check_tables(&c, &j).map_err(|e| format!("entries of preset {p} as custom table at quality {q}: {e}"))?;
            n += 1;
        }
    }
    Ok(M::new(true).inner(n as u64))
}

fn table_case() -> BoxedStrategy<(Case, u8)> {
    let any_custom = prop_oneof![
        3 => prop::collection::vec(any::<u16>(), 64),
        2 => prop::collection::vec(0..=300u16, 64),
        2 => prop::collection::vec(prop_oneof![Just(0u16), Just(1), Just(2), Just(254), Just(255), Just(256), Just(257), Just(511), Just(512), Just(2047), Just(2048), Just(2049), Just(32767), Just(32768), Just(65535)], 64),
        1 => Just((1..=64u16).collect::<Vec<_>>()),
    ]
    .prop_map(QT::Custom)
    .boxed();
    let one = prop_oneof![3 => any_custom, 1 => gen::known_q(), 1 => gen::preset_q()].boxed();
    (gen::image(20), gen::cfg(), one.clone(), one, gen::builtin(), gen::vidx())
        .prop_map(|(img, mut cfg, a, b, entry, v)| {
            cfg.qt = Some((a, b));
            (Case { img, cfg, entry }, v)
        })
        .boxed()
}

pub fn c14() -> Vec<Probe> {
    vec![
        list("all_presets", "all 9 presets x all 256 quality values, as luma and as chroma table, for four colour types (exhaustive); each is non-trivial", all_presets, t_preset),
        list("known_tables", "the entries of every preset as custom tables, in three orders, at 12 qualities (exhaustive); each is non-trivial", known_tables, t_known),
        prop("tables", "custom tables with arbitrary 16 bit entries mixed with presets in every coding mode; non-trivial: not both default", 120_000, 3_000_000, table_case, t_tables),
    ]
}

// ---------------------------------------------------------------- C15

fn opt_case() -> BoxedStrategy<(Case, u8)> {
    let big = prop_oneof![5 => gen::case(96), 1 => (gen::image(300), gen::cfg(), gen::entry()).prop_map(|(img, cfg, entry)| Case { img, cfg, entry })];
    let loose = (1..=17u8, any::<bool>(), any::<u64>(), 1..=40u16).prop_map(|(n, dense, seed, wu)| {
        let blocks: u64 = {
            let (mut a, mut b, mut t) = (1u64, 2u64, 0u64);
            for _ in 0..n {
                t += a;
                (a, b) = (b, a + b);
            }
            t
        };
        let wu = wu as u64;
        Image { w: (wu * 8) as u16, h: (blocks.div_ceil(wu).clamp(1, 60) * 8) as u16, pat: Pattern::Fib { n, dense, seed } }
    });
    // a Fibonacci number of blocks: chain shaped code trees of up to 20 levels
    let exact = (0..7usize, 0..7u8, any::<u64>()).prop_map(|(i, n, seed)| {
        let (bw, bh) = [(7, 3), (17, 2), (11, 5), (12, 12), (29, 13), (61, 10), (47, 21)][i];
        let top = [9, 10, 11, 14, 16, 17, 18][i];
        Image { w: bw * 8, h: bh * 8, pat: Pattern::Fib { n: top - n.min(4), dense: true, seed } }
    });
    let fib = prop_oneof![loose, exact];
    let f = (fib, gen::cfg(), gen::builtin()).prop_map(|(img, mut cfg, entry)| {
        cfg.qt = Some((QT::Custom(vec![8; 64]), QT::Custom(vec![8; 64])));
        Case { img, cfg, entry }
    });
    (prop_oneof![4 => big, 1 => f], gen::vidx())
        .prop_map(|(mut c, v)| {
            c.cfg.opt = true;
            (c, v)
        })
        .boxed()
}

fn opt_big() -> BoxedStrategy<(Case, u8)> {
    (gen::case_big(), gen::vidx())
        .prop_map(|(mut c, v)| {
            c.cfg.opt = true;
            (c, v)
        })
        .boxed()
}

fn check_opt(j: &Jpeg) -> Result<(usize, usize), String> {
    let mut used = vec![false; j.huffs.len()];
    for s in &j.scans {
        for h in s.dc.iter().chain(&s.ac).flatten() {
            used[*h] = true;
        }
    }
    let mut deepest = 0;
    let mut most = 0;
    let mut opt_bits = 0u64;
    let mut def_bits = 0u64;
    for (h, u) in j.huffs.iter().zip(used) {
        let name = format!("{} table {}", if h.class == 0 { "DC" } else { "AC" }, h.id);
        if !u {
            return Err(format!("{name} is not used by any scan"));
        }
        if h.max_len() > 16 {
            return Err(format!("{name} has codes of {} bits", h.max_len()));
        }
        for s in 0..=255u8 {
            let (def, n) = (h.len_of(s) > 0, h.hist[s as usize]);
            if def && n == 0 {
                return Err(format!("{name} defines symbol {s:#04x}, which the image does not use"));
            }
            if !def && n > 0 {
                return Err(format!("{name} does not define symbol {s:#04x}"));
            }
        }
        let (lens, deep) = rm::k2_lengths(&h.hist);
        deepest = deepest.max(deep);
        most = most.max(h.vals.len());
        let best: u64 = (0..256).map(|s| h.hist[s] * lens[s] as u64).sum();
        if deep <= 16 && h.cost() > best + 16 {
            return Err(format!("{name} spends {} bits on codes, the Huffman optimum is {best}", h.cost()));
        }
        opt_bits += h.cost();
        for s in 0..256usize {
            if h.hist[s] > 0 {
                let l = rm::default_len(h.class, h.id & 1, s as u8) as u64;
                if l == 0 {
                    return Err(format!("symbol {s:#04x} is impossible in a baseline stream"));
                }
                def_bits += h.hist[s] * l;
            }
        }
    }
    if opt_bits > def_bits {
        return Err(format!("optimized codes take {opt_bits} bits, the default tables would take {def_bits}"));
    }
    Ok((deepest, most))
}

fn t_opt(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (_, j) = ctx.encode_parse(ctx.v(*v as usize), c)?;
    let (deep, most) = check_opt(&j)?;
    Ok(tags(M::new(most >= 3), c)
        .tag(match deep {
            0..=8 => "tree depth <= 8",
            9..=16 => "tree depth 9-16",
            17..=32 => "tree depth 17-32",
            _ => "tree depth > 32",
        })
        .tag(match most {
            0..=2 => "alphabet <= 2",
            3..=20 => "alphabet 3-20",
            21..=80 => "alphabet 21-80",
            _ => "alphabet > 80",
        }))
}

pub fn c15() -> Vec<Probe> {
    vec![
        prop(
            "tables",
            "optimized encodes over all patterns (incl. Fibonacci-distributed symbols), modes and restart intervals; non-trivial: a table with at least 3 symbols",
            120_000,
            3_000_000,
            opt_case,
            t_opt,
        ),
        prop("tables_big", "optimized encodes of large images", 300, 7500, opt_big, t_opt),
        list(
            "deep_trees",
            "images with Fibonacci symbol frequencies, trees of depth 17 to over 32 before limiting",
            |ctx| extremes(ctx).into_iter().filter(|c| c.cfg.opt).map(|c| (c, 1u8)).collect(),
            t_opt,
        ),
    ]
}

// ---------------------------------------------------------------- C16

fn model_step(s: &mut Snap, op: &Op) {
    if !accepted(op) {
        return;
    }
    match op {
        Op::Density(d) => s.density = *d,
        Op::Sampling(x) => s.sampling = *x,
        Op::QTables(a, b) => s.qt = (a.clone(), b.clone()),
        Op::Progressive(p) => s.scans = p.then_some(4),
        Op::Scans(n) => s.scans = Some(*n),
        Op::Restart(n) => s.restart = (*n > 0).then_some(*n),
        Op::Optimized(o) => s.opt = *o,
        Op::App { .. } | Op::Icc(_) => {}
    }
}

fn initial(q: u8) -> Snap {
    Snap {
        density: Dens::None,
        sampling: if q < 90 { 3 } else { 0 },
        qt: (QT::Preset(0), QT::Preset(0)),
        scans: None,
        restart: None,
        opt: false,
    }
}

fn t_model(ctx: &Ctx, c: &Calls) -> R {
    let v = ctx.v(c.v as usize);
    let px = c.img.pixels(c.entry.nch());
    let rq = Request {
        quality: c.quality,
        ops: c.ops.clone(),
        entry: c.entry.clone(),
        w: c.img.w,
        h: c.img.h,
        sink: Sink::Vec,
        snaps: true,
    };
    let (rs, out) = v.run(&rq, &px);
    let mut m = initial(c.quality);
    if rs.init.as_ref() != Some(&m) {
        return Err(format!("[{}] a new encoder of quality {} reports {:?}", v.name, c.quality, rs.init));
    }
    for (i, (op, (o, s))) in c.ops.iter().zip(&rs.ops).enumerate() {
        check_op(op, o)?;
        model_step(&mut m, op);
        if s.as_ref() != Some(&m) {
            return Err(format!("[{}] after call {i} ({op:?}) the getters report {s:?}, expected {m:?}", v.name));
        }
    }
    if !rs.outcome.is_ok() {
        return Err(format!("[{}] encode failed: {:?}", v.name, rs.outcome));
    }
    // the same final settings set once, in another order, after the metadata
    let mut ops: Vec<Op> = c.ops.iter().filter(|o| accepted(o) && matches!(o, Op::App { .. } | Op::Icc(_))).cloned().collect();
    let nmeta = ops.len();
    ops.push(Op::Optimized(m.opt));
    ops.push(Op::Restart(m.restart.unwrap_or(0)));
    match m.scans {
        None => {}
        Some(n) => ops.push(Op::Scans(n)),
    }
    ops.push(Op::QTables(m.qt.0.clone(), m.qt.1.clone()));
    ops.push(Op::Sampling(m.sampling));
    ops.push(Op::Density(m.density));
    let (rs2, out2) = v.run(&Request { ops, ..rq.clone() }, &px);
    expect_ok(&rs2, &v.name)?;
    same_bytes(&out, &out2, "history against its final settings")?;
    let kinds = |f: fn(&Op) -> bool| c.ops.iter().filter(|o| f(o)).count() > 1;
    let redundant = kinds(|o| matches!(o, Op::Scans(_) | Op::Progressive(_)))
        || kinds(|o| matches!(o, Op::Sampling(_)))
        || kinds(|o| matches!(o, Op::Restart(_)))
        || kinds(|o| matches!(o, Op::QTables(..)));
    let refused = c.ops.iter().any(|o| !accepted(o));
    Ok(M::new(redundant || refused)
        .inner(1)
        .tag(if redundant { "overwritten settings" } else { "no overwriting" })
        .tag(if refused { "refused calls" } else { "no refused call" })
        .tag(if nmeta > 0 { "metadata" } else { "no metadata" }))
}

fn histories() -> BoxedStrategy<Calls> {
    (gen::image(24), prop_oneof![3 => gen::quality(), 1 => 88..=91u8], prop::collection::vec(gen::any_op(), 1..16), gen::entry(), gen::vidx())
        .prop_map(|(img, quality, ops, entry, v)| Calls { img, quality, ops, entry, v })
        .boxed()
}

fn scan_counts(_: &Ctx) -> Vec<Calls> {
    let mut v = vec![];
    for n in 0..=255u8 {
        for (k, pre) in [vec![], vec![Op::Scans(7)], vec![Op::Progressive(true)]].into_iter().enumerate() {
            let mut ops = pre;
            ops.push(Op::Scans(n));
            v.push(Calls {
                img: Image { w: 11, h: 9, pat: Pattern::Noise(n as u64) },
                quality: n,
                ops,
                entry: Entry::Encode(n % 9),
                v: n.wrapping_add(k as u8) % 5,
            });
        }
    }
    v
}

fn restart_values(ctx: &Ctx) -> Vec<Calls> {
    let step = if ctx.thorough { 1 } else { 61 };
    (0..=65535u32)
        .step_by(step)
        .map(|n| n as u16)
        .chain([1, 255, 256, 32767, 32768, 65534, 65535])
        .map(|n| Calls {
            img: Image { w: 9, h: 1, pat: Pattern::Noise(1) },
            quality: (n % 101) as u8,
            ops: vec![Op::Restart(n.wrapping_add(1)), Op::Restart(n)],
            entry: Entry::Encode(0),
            v: (n % 5) as u8,
        })
        .collect()
}

pub fn c16() -> Vec<Probe> {
    vec![
        prop(
            "histories",
            "model-based: 1..15 setter calls (valid, refused, redundant), getters compared with a model after every call, output compared with a canonical order of the final settings; non-trivial: a setting is overwritten or a call refused",
            200_000,
            5_000_000,
            histories,
            t_model,
        ),
        list("scan_counts", "set_progressive_scans with all 256 values (exhaustive) in three states", scan_counts, t_model),
        list("restart_values", "set_restart_interval with values over the whole 16 bit range", restart_values, t_model),
    ]
}

// ---------------------------------------------------------------- C18

fn check_scans(c: &Case, j: &Jpeg) -> Result<(), String> {
    let nc = j.comps.len();
    match c.cfg.nscans() {
        None => {
            if j.sof != 0xC0 {
                return Err(format!("frame type {:#04x} instead of baseline", j.sof));
            }
            for ci in 0..nc {
                let n = j.scans.iter().filter(|s| s.comps.contains(&ci)).count();
                if n != 1 {
                    return Err(format!("component {ci} is in {n} scans of a baseline frame"));
                }
            }
            if j.scans.iter().any(|s| (s.ss, s.se) != (0, 63)) {
                return Err("partial scan in a baseline frame".into());
            }
        }
        Some(n) => {
            if j.sof != 0xC2 {
                return Err(format!("frame type {:#04x} instead of progressive", j.sof));
            }
            let first_ac = j.scans.iter().position(|s| s.ss > 0).ok_or("no AC scan")?;
            if j.scans[first_ac..].iter().any(|s| s.ss == 0) {
                return Err("a DC scan follows an AC scan".into());
            }
            for ci in 0..nc {
                let s: Vec<_> = j.scans.iter().filter(|s| s.comps.contains(&ci)).collect();
                if s.len() != n as usize {
                    return Err(format!("component {ci} is sent in {} scans, {n} requested", s.len()));
                }
                if (s[0].ss, s[0].se) != (0, 0) {
                    return Err(format!("first scan of component {ci} covers {}..={}", s[0].ss, s[0].se));
                }
                let mut next = 1;
                for b in &s[1..] {
                    if b.ss != next || b.se < b.ss || b.se > 63 {
                        return Err(format!("component {ci}: band {}..={} where {next} comes next", b.ss, b.se));
                    }
                    next = b.se + 1;
                }
                if next != 64 {
                    return Err(format!("component {ci}: coefficients {next}..=63 are never sent"));
                }
            }
        }
    }
    Ok(())
}

fn t_scans(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (_, j) = ctx.encode_parse(ctx.v(*v as usize), c)?;
    check_scans(c, &j)?;
    Ok(tags(M::new(nontrivial(&j)), c))
}

fn all_scan_counts(ctx: &Ctx) -> Vec<(Case, u8)> {
    let mut v = vec![];
    for n in 2..=64u8 {
        for ct in [0u8, 1, 6, 7] {
            for (opt, restart) in [(false, 0), (true, 0), (false, 2), (true, 3)] {
                v.push((
                    Case {
                        img: Image { w: 19, h: 27, pat: Pattern::Noise(ctx.seed ^ n as u64) },
                        cfg: Cfg { prog: Prog::Scans(n), opt, restart, sampling: Some((n + ct) % 16), ..plain_cfg() },
                        entry: Entry::Encode(ct),
                    },
                    n % 25,
                ));
            }
        }
    }
    v
}

fn scan_case() -> BoxedStrategy<(Case, u8)> {
    (gen::case(60), prop_oneof![1 => Just(Prog::Off), 1 => Just(Prog::On), 6 => (2..=64u8).prop_map(Prog::Scans)], gen::vidx())
        .prop_map(|(mut c, p, v)| {
            c.cfg.prog = p;
            (c, v)
        })
        .boxed()
}

pub fn c18() -> Vec<Probe> {
    vec![
        list("all_scan_counts", "every scan count 2..=64 (exhaustive) x 4 colour types x optimization x restarts; non-trivial: non-zero AC coefficients", all_scan_counts, t_scans),
        prop("scans", "full configurations, mostly progressive; non-trivial as above", 150_000, 3_750_000, scan_case, t_scans),
        prop("scans_big", "large images", 1200, 30_000, big_v, t_scans),
    ]
}

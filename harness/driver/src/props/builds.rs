//! Agreement between builds, and memory safety.
use super::*;
use crate::gen;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::process::{Command, Stdio};

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    img: Image,
    quality: u8,
    ops: Vec<Op>,
    entry: Entry,
    /// bytes cut from (negative) or added to the data
    cut: i32,
}

impl Any {
    fn request(&self) -> (Request, Vec<u8>) {
        let mut px = self.img.pixels(self.entry.nch());
        if matches!(self.entry, Entry::Encode(_)) {
            let n = (px.len() as i64 + self.cut as i64).max(0) as usize;
            px.resize(n, 0x5A);
        }
        px.shrink_to_fit();
        let rq = Request {
            quality: self.quality,
            ops: self.ops.clone(),
            entry: self.entry.clone(),
            w: self.img.w,
            h: self.img.h,
            sink: Sink::Vec,
            snaps: true,
        };
        (rq, px)
    }
}

fn any_case(img: BoxedStrategy<Image>) -> BoxedStrategy<Any> {
    let ops = prop_oneof![
        2 => gen::cfg().prop_map(|c| (c.quality, c.ops())),
        1 => (gen::quality(), prop::collection::vec(gen::any_op(), 0..8)),
    ];
    (img, ops, gen::entry(), prop_oneof![12 => Just(0), 1 => -3..=3i32])
        .prop_map(|(img, (quality, ops), entry, cut)| Any { img, quality, ops, entry, cut })
        .boxed()
}
fn any_small() -> BoxedStrategy<Any> {
    any_case(gen::image(72))
}
fn any_big() -> BoxedStrategy<Any> {
    any_case(prop_oneof![24 => gen::image_big(), 1 => gen::image_huge()].boxed())
}
/// single-colour tables of ones: every rounding difference becomes visible
fn any_exact() -> BoxedStrategy<Any> {
    let q = prop_oneof![3 => Just(gen::ones()), 1 => (gen::custom_q(), gen::custom_q())];
    (any_case(gen::image(120)), q)
        .prop_map(|(mut a, q)| {
            a.ops.push(Op::QTables(q.0, q.1));
            a.cut = 0;
            a
        })
        .boxed()
}

/// Results without the text of panics (which names source lines).
fn plain(r: &Response) -> Response {
    let mut r = r.clone();
    let f = |o: &mut Outcome| {
        if let Outcome::Panic(m) = o {
            m.clear();
        }
    };
    f(&mut r.outcome);
    for (o, _) in &mut r.ops {
        f(o);
    }
    r
}

fn agree(a: &(Response, Vec<u8>), b: &(Response, Vec<u8>), x: &str, y: &str) -> Result<(), String> {
    same_bytes(&a.1, &b.1, &format!("builds {x} and {y}"))?;
    if plain(&a.0) != plain(&b.0) {
        return Err(format!("builds {x} and {y} report {:?} / {:?} and {:?} / {:?}", a.0.outcome, a.0.ops, b.0.outcome, b.0.ops));
    }
    Ok(())
}

fn t_builds(ctx: &Ctx, a: &Any) -> R {
    let (rq, px) = a.request();
    let base = ctx.v(0).run(&rq, &px);
    for v in &ctx.variants[1..] {
        agree(&base, &v.run(&rq, &px), &ctx.v(0).name, &v.name)?;
    }
    let n = a.img.w as usize * a.img.h as usize;
    let mut inner = ctx.variants.len() as u64 - 1;
    if n < 100_000 {
        for narrow in ["i686", "i686-simd"] {
            agree(&base, &work(ctx, narrow, &rq, &px), &ctx.v(0).name, narrow)?;
            inner += 1;
        }
        // the feature compiled in on a machine without AVX2
        let env = [("RUST_STD_DETECT_UNSTABLE", "avx2")];
        agree(&base, &work_env(ctx, "noavx-simd", &env, &rq, &px), &ctx.v(0).name, "noavx-simd")?;
        inner += 1;
    }
    let ok = base.0.outcome.is_ok();
    Ok(M::new(ok && n > 64).inner(inner).tag(if ok { "encoded" } else { "refused" }).tag(format!("pattern {}", a.img.pat.name())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    cases: Vec<Any>,
}

fn batch_small() -> BoxedStrategy<Batch> {
    // the interpreter is slow: few blocks, but many configurations
    let img = prop_oneof![3 => (1..=9u16, 1..=9u16), 1 => (8..=18u16, 8..=10u16)];
    let img = (img, gen::pattern()).prop_map(|((w, h), pat)| Image { w, h, pat }).boxed();
    let one = (any_case(img), 0..24u8).prop_map(|(mut a, k)| {
        thin(&mut a.ops, &mut a.entry, k);
        a
    });
    prop::collection::vec(one, 6..=6).prop_map(|cases| Batch { cases }).boxed()
}

/// Building optimized tables takes the interpreter ten seconds per table pair: keep few of those.
fn thin(ops: &mut [Op], entry: &mut Entry, k: u8) {
    for o in ops {
        if let Op::Optimized(b) = o {
            *b = k == 0;
        }
    }
    if k == 0 {
        match entry {
            Entry::Encode(c) => *c = 0,
            Entry::Custom { jct, .. } => *jct = 0,
        }
    }
}

/// Runs requests under Miri for a target; None with the diagnosis if the interpreter stops.
fn miri(ctx: &Ctx, target: &str, features: &str, reqs: &[(Request, Vec<u8>)]) -> Result<Vec<(Response, Vec<u8>)>, String> {
    let mut input = vec![];
    for (rq, px) in reqs {
        input.extend_from_slice(&crate::worker::frames(rq, px));
    }
    interpret(ctx, target, features, reqs.len(), input)
}

fn interpret(ctx: &Ctx, target: &str, features: &str, n: usize, input: Vec<u8>) -> Result<Vec<(Response, Vec<u8>)>, String> {
    let mut cmd = Command::new(format!("{}/harness/miri.sh", ctx.verif));
    cmd.arg(target).arg(features);
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut si = ch.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&input);
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    let out = crate::worker::parse_frames(&o.stdout);
    if out.len() == n {
        return Ok(out);
    }
    let e = String::from_utf8_lossy(&o.stderr);
    let lines: Vec<&str> = e.lines().filter(|l| l.contains("error") || l.contains("-->")).take(4).collect();
    if e.contains("Undefined Behavior") {
        return Err(format!("case {}: {}", out.len(), lines.join(" | ")));
    }
    eprintln!("HARNESS ERROR: Miri run failed: {e}");
    std::process::exit(2);
}

fn t_endian(ctx: &Ctx, b: &Batch) -> R {
    let reqs: Vec<_> = b.cases.iter().map(Any::request).collect();
    let r = miri(ctx, "s390x-unknown-linux-gnu", "std", &reqs)?;
    for (i, (x, (rq, px))) in r.iter().zip(&reqs).enumerate() {
        agree(&ctx.v(0).run(rq, px), x, &ctx.v(0).name, &format!("s390x (case {i} of the batch)"))?;
    }
    Ok(M::new(r.iter().filter(|x| x.0.outcome.is_ok()).count() > 2).inner(b.cases.len() as u64 * 2 - 1))
}

pub fn c06() -> Vec<Probe> {
    vec![
        prop("builds", "arbitrary setter sequences and images (also refused ones) through all five native builds, both i686 builds and the simd build on a machine without AVX2, bytes and results compared; non-trivial: encoded and more than 64 pixels", 60_000, 1_500_000, any_small, t_builds),
        prop("builds_exact", "as above with fine quantization, so that any rounding difference shows", 50_000, 1_250_000, any_exact, t_builds),
        prop("builds_big", "as above on large images", 600, 15_000, any_big, t_builds),
        prop("big_endian", "batches of six small cases interpreted by Miri as s390x and compared with the native build; non-trivial: at least three of them encode", 40, 1000, batch_small, t_endian),
    ]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Evil {
    img: Image,
    quality: u8,
    ops: Vec<Op>,
    entry: Entry,
    cut: i32,
    sink: Sink,
}

impl Evil {
    fn request(&self) -> (Request, Vec<u8>) {
        let a = Any {
            img: self.img.clone(),
            quality: self.quality,
            ops: self.ops.clone(),
            entry: self.entry.clone(),
            cut: self.cut,
        };
        let (mut rq, px) = a.request();
        rq.sink = self.sink.clone();
        (rq, px)
    }
}

fn evil_sink() -> BoxedStrategy<Sink> {
    prop_oneof![
        8 => Just(Sink::Vec),
        1 => gen::fault().prop_map(Sink::Plain),
        1 => (any::<u64>(), 1..=30u16, gen::fault()).prop_map(|(seed, max, fault)| Sink::Short { seed, max, fault }),
        1 => (0..=3000u64).prop_map(Sink::Slice),
    ]
    .boxed()
}

fn evil(max: u16) -> BoxedStrategy<Evil> {
    let entry = prop_oneof![
        5 => (0..9u8).prop_map(Entry::Encode),
        4 => (0..4u8, gen::buf_mode_any()).prop_map(|(jct, mode)| Entry::Custom { jct, mode }),
    ];
    let ops = prop_oneof![
        2 => gen::cfg().prop_map(|c| (c.quality, c.ops())),
        1 => (gen::quality(), prop::collection::vec(gen::any_op(), 0..6)),
    ];
    (gen::image(max), ops, entry, prop_oneof![6 => Just(0), 2 => -40..=40i32, 1 => any::<i16>().prop_map(i32::from)], evil_sink())
        .prop_map(|(img, (quality, ops), entry, cut, sink)| Evil { img, quality, ops, entry, cut, sink })
        .boxed()
}
fn evil_small() -> BoxedStrategy<Evil> {
    evil(72)
}
fn evil_miri() -> BoxedStrategy<Vec<Evil>> {
    let dims = prop_oneof![2 => (1..=20u16, 1..=3u16), 1 => (1..=9u16, 1..=9u16)];
    prop::collection::vec((evil(4), dims, 0..24u8).prop_map(|(mut e, (w, h), k)| {
        thin(&mut e.ops, &mut e.entry, k);
        e.img.w = w;
        e.img.h = h;
        e.cut = e.cut.clamp(-9, 9);
        e
    }), 4..=4)
    .boxed()
}

fn evil_tag(e: &Evil) -> String {
    match &e.entry {
        Entry::Encode(_) => match e.cut {
            0 => "exactly sized slice".into(),
            c if c < 0 => "short slice".into(),
            _ => "longer slice".to_string(),
        },
        Entry::Custom { mode, .. } => {
            let s = format!("{mode:?}");
            format!("source {}", s.split(['(', ' ', '{']).next().unwrap_or(""))
        }
    }
}

fn short(o: &Outcome) -> &'static str {
    match o {
        Outcome::Ok => "success",
        Outcome::Err(_) => "error",
        Outcome::Panic(_) => "panic",
        Outcome::Died(_) => "died",
        Outcome::Unsupported => "unsupported",
    }
}

/// In the sanitized builds: an out-of-bounds access ends the process.
fn t_asan(ctx: &Ctx, e: &Evil) -> R {
    in_asan(ctx, e, &["asan-simd", "asan-scalar"])
}

/// Without optimization no access is narrowed or removed before the sanitizer sees it.
fn t_asan_plain(ctx: &Ctx, e: &Evil) -> R {
    in_asan(ctx, e, &["asan-plain"])
}

fn in_asan(ctx: &Ctx, e: &Evil, builds: &[&str]) -> R {
    let (rq, px) = e.request();
    let mut m = M::new(true).inner(builds.len() as u64 - 1);
    for b in builds {
        let (rs, _) = work(ctx, b, &rq, &px);
        if let Outcome::Died(w) = &rs.outcome {
            return Err(format!("[{b}] {w}"));
        }
        if let Outcome::Panic(p) = &rs.outcome {
            // checks inside the standard library that stand for undefined behaviour
            if p.contains("unsafe precondition") || p.contains("undefined behavior") {
                return Err(format!("[{b}] {p}"));
            }
        }
        m = m.tag(short(&rs.outcome));
    }
    Ok(m.tag(evil_tag(e)))
}

/// Uninitialised memory in the output: two processes whose allocator hands out memory with different contents.
fn t_uninit(ctx: &Ctx, e: &Evil) -> R {
    let (rq, px) = e.request();
    let mut nt = false;
    for b in ["simd-release", "scalar-release"] {
        let x = work_env(ctx, b, &[("JE_FILL", "90")], &rq, &px);
        let y = work_env(ctx, b, &[("JE_FILL", "165")], &rq, &px);
        for r in [&x, &y] {
            if let Outcome::Died(w) = &r.0.outcome {
                return Err(format!("[{b}] {w}"));
            }
        }
        same_bytes(&x.1, &y.1, &format!("[{b}] fresh memory filled with 0x5a and with 0xa5"))?;
        if plain(&x.0) != plain(&y.0) {
            return Err(format!("[{b}] the result depends on the content of fresh memory: {:?} and {:?}", x.0.outcome, y.0.outcome));
        }
        nt |= x.0.outcome.is_ok();
    }
    Ok(M::new(nt).inner(3).tag(evil_tag(e)))
}

fn t_miri(ctx: &Ctx, b: &Vec<Evil>) -> R {
    let reqs: Vec<_> = b.iter().map(Evil::request).collect();
    let r = miri(ctx, "x86_64-unknown-linux-gnu", "simd", &reqs)?;
    let mut m = M::new(r.iter().any(|x| x.0.outcome.is_ok())).inner(b.len() as u64 - 1);
    for x in &r {
        m = m.tag(short(&x.0.outcome));
    }
    Ok(m)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    cases: Vec<Evil>,
    /// the first case again on another thread
    twin: bool,
}

fn crowd() -> BoxedStrategy<Crowd> {
    (prop::collection::vec(evil(48), 2..=4), any::<bool>()).prop_map(|(cases, twin)| Crowd { cases, twin }).boxed()
}
fn crowd_miri() -> BoxedStrategy<Crowd> {
    (evil_miri(), any::<bool>()).prop_map(|(mut cases, twin)| {
        cases.truncate(2);
        Crowd { cases, twin }
    })
    .boxed()
}

impl Crowd {
    fn requests(&self) -> Vec<(Request, Vec<u8>)> {
        let n = if self.twin { 1 } else { 0 };
        self.cases.iter().chain(self.cases.iter().take(n)).map(Evil::request).collect()
    }
}

/// Unsynchronised accesses of several threads to the same memory, whatever the interleaving was.
fn t_races(ctx: &Ctx, c: &Crowd) -> R {
    let reqs = c.requests();
    let mut m = M::new(true).inner(reqs.len() as u64 * 2 - 1);
    for b in ["tsan-simd", "tsan-scalar"] {
        for r in work_together(ctx, b, &reqs).map_err(|e| format!("[{b}] {} encodes at the same time: {e}", reqs.len()))? {
            m = m.tag(short(&r.0.outcome));
        }
    }
    Ok(m.tag(format!("{} threads", reqs.len())))
}

fn t_miri_threads(ctx: &Ctx, c: &Crowd) -> R {
    let reqs = c.requests();
    let r = interpret(ctx, "x86_64-unknown-linux-gnu", "simd", reqs.len(), crate::worker::frames_together(&reqs))?;
    let mut m = M::new(r.iter().all(|x| x.0.outcome.is_ok())).inner(reqs.len() as u64 - 1);
    for x in &r {
        m = m.tag(short(&x.0.outcome));
    }
    Ok(m)
}

/// All widths around the vector width, all formats, exactly sized data at a guard page.
fn tails(_: &Ctx) -> Vec<(u16, u16, u8, bool)> {
    let mut v = vec![];
    for w in 1..=41u16 {
        for h in [1u16, 2, 9] {
            for ct in 0..9u8 {
                for prog in [false, true] {
                    v.push((w, h, ct, prog));
                }
            }
        }
    }
    v
}

fn t_tail(ctx: &Ctx, (w, h, ct, prog): &(u16, u16, u8, bool)) -> R {
    let e = |cut| Evil {
        img: Image { w: *w, h: *h, pat: Pattern::Noise(*w as u64) },
        quality: 80,
        ops: if *prog { vec![Op::Progressive(true)] } else { vec![] },
        entry: Entry::Encode(*ct),
        cut,
        sink: Sink::Vec,
    };
    for cut in [0, -1] {
        let (rq, px) = e(cut).request();
        for b in ["asan-simd", "asan-scalar", "asan-plain"] {
            let (rs, _) = work(ctx, b, &rq, &px);
            if let Outcome::Died(m) = &rs.outcome {
                return Err(format!("[{b}] {w}x{h} {} with {} bytes: {m}", CT_NAMES[*ct as usize], px.len()));
            }
            if rs.outcome.is_ok() != (cut == 0) {
                return Err(format!("[{b}] {w}x{h} {} with {} bytes: {:?}", CT_NAMES[*ct as usize], px.len(), rs.outcome));
            }
        }
    }
    Ok(M::new(w % 8 != 0).inner(5))
}

pub fn c07() -> Vec<Probe> {
    vec![
        list("tails", "every width 1..=41 x 3 heights x 9 formats with exactly sized and one byte short slices at a guard page, AddressSanitizer builds; non-trivial: width not a multiple of 8", tails, t_tail),
        prop("asan", "adversarial slices, configurations, failing writers and misbehaving image sources in AddressSanitizer builds (SIMD and scalar) with slices ending at a guard page; every case counts", 100_000, 2_500_000, evil_small, t_asan),
        prop("asan_plain", "the same in an AddressSanitizer build without optimization", 20_000, 500_000, evil_small, t_asan_plain),
        prop("uninit", "the same with two different contents of fresh memory, outputs compared; non-trivial: the encode succeeds", 50_000, 1_250_000, evil_small, t_uninit),
        prop("races", "two to five encodes (adversarial ones too) at the same time on threads of their own in ThreadSanitizer builds, whose detector does not depend on the interleaving; every case counts", 3000, 100_000, crowd, t_races).plain(),
        prop("miri_threads", "two or three small encodes on threads of their own under Miri, which detects data races; non-trivial: all of them succeed", 16, 400, crowd_miri, t_miri_threads),
        prop("miri", "batches of four small adversarial cases under Miri with AVX2; non-trivial: one of them encodes", 40, 1200, evil_miri, t_miri),
    ]
}

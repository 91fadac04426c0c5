//! Shared state of a check, the sharded property runner, statistics, evidence.
use crate::lib_c::{LibJpeg, Variant};
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::case::*;
use vcore::jpeg::{parse, Jpeg};

pub const SHARDS: usize = 8;

/// Cases take at most a few seconds; this much processor time on one case means it does not terminate.
const HANG_CPU_S: f64 = 100.0;
/// A case that has used almost no processor time for this long is waiting for something that never comes.
const STUCK_S: f64 = 400.0;

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

/// Processor time used by one thread.
pub struct Clock {
    id: i32,
    start: f64,
    wall: Instant,
}

impl Clock {
    fn now(id: i32) -> f64 {
        let mut t = [0i64; 2];
        if unsafe { clock_gettime(id, &mut t) } != 0 {
            return 0.0;
        }
        t[0] as f64 + t[1] as f64 * 1e-9
    }
    pub fn start() -> Clock {
        let mut id = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
        Clock { id, start: Clock::now(id), wall: Instant::now() }
    }
    pub fn cpu_seconds(&self) -> f64 {
        Clock::now(self.id) - self.start
    }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub verif: String,
    pub scratch: String,
    pub libs: String,
    pub variants: Vec<Variant>,
    pub libjpeg: Option<LibJpeg>,
    pub failed: AtomicBool,
    pub deadline: Instant,
    pub slots: Vec<Mutex<Option<(Clock, String)>>>,
    pub cache: crate::props::Caches,
}

/// What a passed case tells about itself.
#[derive(Default, Debug)]
pub struct M {
    pub nt: bool,
    pub tags: Vec<String>,
    /// extra evaluations done inside (beyond one)
    pub inner: u64,
}

impl M {
    pub fn new(nt: bool) -> M {
        M { nt, tags: vec![], inner: 0 }
    }
    pub fn tag(mut self, t: impl Into<String>) -> M {
        self.tags.push(t.into());
        self
    }
    pub fn inner(mut self, n: u64) -> M {
        self.inner = n;
        self
    }
}

pub type R = Result<M, String>;

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub inner: u64,
    pub skipped: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    pub fn add(&mut self, js: &str, case: &dyn Fn() -> Value, m: M) {
        self.evals += 1;
        self.inner += m.inner;
        for t in m.tags {
            *self.tags.entry(t).or_default() += 1;
        }
        if m.nt && self.distinct.insert(hash(js.as_bytes())) && self.samples.is_empty() && js.len() < 3000 {
            self.samples.push(case());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.inner += o.inner;
        self.skipped += o.skipped;
        self.distinct.extend(o.distinct);
        for (k, v) in o.tags {
            *self.tags.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Failure {
    pub probe: String,
    pub case: Value,
    pub msg: String,
}

pub struct Probe {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: Box<dyn Fn(&Ctx) -> (Stats, Option<Failure>)>,
    pub replay: Box<dyn Fn(&Ctx, &Value) -> Result<(), String>>,
    /// the coverage-guided search with the same generator and the same check
    pub guided: Option<Box<dyn Fn(&Ctx) -> (Stats, Option<Failure>)>>,
}

impl Probe {
    /// No coverage-guided search (the code under test runs elsewhere, or cases are too large).
    pub fn plain(mut self) -> Probe {
        self.guided = None;
        self
    }
}

pub fn guard<C>(ctx: &Ctx, test: &dyn Fn(&Ctx, &C) -> R, c: &C) -> R {
    match catch_unwind(AssertUnwindSafe(|| test(ctx, c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            eprintln!("HARNESS ERROR: check panicked: {m}");
            std::process::exit(2);
        }
    }
}

impl Ctx {
    pub fn enter(&self, shard: usize, js: &str) {
        *self.slots[shard].lock().unwrap() = Some((Clock::start(), js.to_string()));
        let _ = std::fs::write(format!("{}/slot{shard}", self.scratch), js);
    }
    pub fn leave(&self, shard: usize) {
        let g = self.slots[shard].lock().unwrap().take();
        if let (Some((t, js)), Ok(lim)) = (g, std::env::var("JE_SLOW")) {
            // for tuning: which cases take long
            if t.cpu_seconds() > lim.parse().unwrap_or(1.0) {
                eprintln!("{:.1} s: {js}", t.cpu_seconds());
            }
        }
    }
    pub fn count(&self, quick: u32, thorough: u32) -> u32 {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale).ceil() as u32).max(1)
    }
    pub fn replay_json(&self, probe: &str, case: Value, msg: &str) -> Value {
        json!({"property": self.id, "probe": probe, "case": case, "message": msg, "seed": self.seed})
    }
    pub fn write_replay(&self, f: &Failure) -> String {
        let j = self.replay_json(&f.probe, f.case.clone(), &f.msg);
        let d = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&d);
        let p = format!("{d}/{}-{}-{:08x}.json", self.id, f.probe, hash(f.case.to_string().as_bytes()) as u32);
        std::fs::write(&p, serde_json::to_vec_pretty(&j).unwrap()).expect("write replay");
        p
    }

    // ------------------------------------------------------------ running the code under test

    pub fn v(&self, i: usize) -> &Variant {
        &self.variants[i % self.variants.len()]
    }
    pub fn by_name(&self, n: &str) -> &Variant {
        self.variants.iter().find(|v| v.name == n).expect("variant")
    }
    pub fn encode(&self, v: &Variant, c: &Case) -> Result<Vec<u8>, String> {
        self.encode_px(v, c, &c.pixels())
    }
    pub fn encode_px(&self, v: &Variant, c: &Case, px: &[u8]) -> Result<Vec<u8>, String> {
        let rq = c.request(Sink::Vec);
        let (rs, out) = v.run(&rq, px);
        expect_ok(&rs, &v.name)?;
        Ok(out)
    }
    pub fn encode_parse(&self, v: &Variant, c: &Case) -> Result<(Vec<u8>, Jpeg), String> {
        let d = self.encode(v, c)?;
        let j = self.parsed(&d, v, c)?;
        Ok((d, j))
    }
    pub fn parsed(&self, d: &[u8], v: &Variant, c: &Case) -> Result<Jpeg, String> {
        let j = parse(d).map_err(|e| format!("[{}] stream is not a legal JPEG: {e}", v.name))?;
        if (j.w, j.h) != (c.img.w as usize, c.img.h as usize) {
            return Err(format!("frame declares {}x{} for a {}x{} image", j.w, j.h, c.img.w, c.img.h));
        }
        let want = JCT_COMPS[c.entry.jct() as usize];
        if j.comps.len() != want {
            return Err(format!("{} components instead of {want}", j.comps.len()));
        }
        Ok(j)
    }
}

pub fn expect_ok(rs: &Response, who: &str) -> Result<(), String> {
    for (i, (o, _)) in rs.ops.iter().enumerate() {
        if !o.is_ok() {
            return Err(format!("[{who}] configuration call {i} failed: {o:?}"));
        }
    }
    match &rs.outcome {
        Outcome::Ok => Ok(()),
        o => Err(format!("[{who}] encode failed: {o:?}")),
    }
}

/// A probe that generates cases with a proptest strategy and shrinks failures.
pub fn prop<C, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn() -> S,
    test: fn(&Ctx, &C) -> R,
) -> Probe
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C> + 'static,
{
    Probe {
        name,
        rule,
        run: Box::new(move |ctx| {
            let total = ctx.count(quick, thorough);
            let out: Mutex<(Stats, Option<Failure>)> = Mutex::new((Stats::default(), None));
            std::thread::scope(|sc| {
                for sh in 0..SHARDS {
                    let out = &out;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let n = total / SHARDS as u32 + (((total as usize % SHARDS) > sh) as u32);
                            if n == 0 {
                                return;
                            }
                            let (st, f) = shard(ctx, name, strat(), test, n, sh);
                            let mut g = out.lock().unwrap();
                            g.0.merge(st);
                            if g.1.is_none() {
                                g.1 = f;
                            }
                        })
                        .expect("thread");
                }
            });
            out.into_inner().unwrap()
        }),
        replay: Box::new(move |ctx, v| {
            let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {e}"))?;
            guard(ctx, &test, &c).map(|_| ())
        }),
        guided: (quick >= 10_000).then(|| -> Box<dyn Fn(&Ctx) -> (Stats, Option<Failure>)> {
            Box::new(move |ctx| crate::fuzz::run(ctx, name, strat, test, ctx.count(quick / 10 * 4, thorough / 10 * 4)))
        }),
    }
}

fn shard<C, S>(ctx: &Ctx, name: &str, strat: S, test: fn(&Ctx, &C) -> R, n: u32, sh: usize) -> (Stats, Option<Failure>)
where
    C: Serialize + Debug + Clone,
    S: Strategy<Value = C>,
{
    let mut seed = [0u8; 32];
    let base = hash(format!("{}/{}/{}/{}", ctx.id, name, ctx.seed, sh).as_bytes());
    for (i, c) in seed.chunks_mut(8).enumerate() {
        c.copy_from_slice(&mix(base.wrapping_add(i as u64)).to_le_bytes());
    }
    let cfg = Config {
        cases: n,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 90_000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let stats = RefCell::new(Stats::default());
    let mine = RefCell::new(None::<String>);
    let r = runner.run(&strat, |c| {
        if mine.borrow().is_none() && (ctx.failed.load(Ordering::Relaxed) || Instant::now() > ctx.deadline) {
            stats.borrow_mut().skipped += 1;
            return Ok(());
        }
        let js = serde_json::to_string(&c).unwrap();
        ctx.enter(sh, &format!("{{\"probe\":\"{name}\",\"case\":{js}}}"));
        let r = guard(ctx, &test, &c);
        ctx.leave(sh);
        match r {
            Ok(m) => {
                if mine.borrow().is_none() {
                    stats.borrow_mut().add(&js, &|| serde_json::to_value(&c).unwrap(), m);
                }
                Ok(())
            }
            Err(e) => {
                ctx.failed.store(true, Ordering::Relaxed);
                *mine.borrow_mut() = Some(e.clone());
                Err(TestCaseError::fail(e))
            }
        }
    });
    let f = match r {
        Ok(()) => None,
        Err(TestError::Fail(why, c)) => {
            Some(Failure { probe: name.into(), case: serde_json::to_value(&c).unwrap(), msg: why.message().to_string() })
        }
        Err(TestError::Abort(why)) => {
            eprintln!("HARNESS ERROR: generator gave up: {why}");
            std::process::exit(2);
        }
    };
    (stats.into_inner(), f)
}

/// A probe over an enumerated list of cases (no shrinking needed: the list goes from small to large).
pub fn list<C>(name: &'static str, rule: &'static str, cases: fn(&Ctx) -> Vec<C>, test: fn(&Ctx, &C) -> R) -> Probe
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    Probe {
        name,
        rule,
        run: Box::new(move |ctx| {
            let all = cases(ctx);
            let next = AtomicUsize::new(0);
            let out: Mutex<(Stats, Option<(usize, Failure)>)> = Mutex::new((Stats::default(), None));
            std::thread::scope(|sc| {
                for sh in 0..SHARDS {
                    let (all, next, out) = (&all, &next, &out);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut st = Stats::default();
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= all.len() {
                                    break;
                                }
                                if ctx.failed.load(Ordering::Relaxed) || Instant::now() > ctx.deadline {
                                    st.skipped += 1;
                                    continue;
                                }
                                let js = serde_json::to_string(&all[i]).unwrap();
                                ctx.enter(sh, &format!("{{\"probe\":\"{name}\",\"case\":{js}}}"));
                                let r = guard(ctx, &test, &all[i]);
                                ctx.leave(sh);
                                match r {
                                    Ok(m) => st.add(&js, &|| serde_json::to_value(&all[i]).unwrap(), m),
                                    Err(e) => {
                                        let mut g = out.lock().unwrap();
                                        if g.1.as_ref().is_none_or(|(k, _)| *k > i) {
                                            g.1 = Some((
                                                i,
                                                Failure {
                                                    probe: name.into(),
                                                    case: serde_json::to_value(&all[i]).unwrap(),
                                                    msg: e,
                                                },
                                            ));
                                        }
                                        ctx.failed.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            out.lock().unwrap().0.merge(st);
                        })
                        .expect("thread");
                }
            });
            let (s, f) = out.into_inner().unwrap();
            (s, f.map(|x| x.1))
        }),
        replay: Box::new(move |ctx, v| {
            let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {e}"))?;
            guard(ctx, &test, &c).map(|_| ())
        }),
        guided: None,
    }
}

/// Runs all probes of a property. Returns the process exit code.
pub fn run_all(ctx: &Ctx, level: &str, probes: Vec<Probe>, assumptions: &[String]) -> i32 {
    let t0 = Instant::now();
    let mut cov = serde_json::Map::new();
    let mut evals = 0;
    let mut inner = 0;
    let mut distinct = 0;
    let mut rules = vec![];
    let mut samples = vec![];
    let mut per = vec![];
    let mut skipped = 0;
    let mut failure = None;
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        // a case that never comes back is a failure too
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for s in &ctx.slots {
                    let g = s.lock().unwrap();
                    if let Some((t, js)) = g.as_ref() {
                        let cpu = t.cpu_seconds();
                        let wall = t.wall.elapsed().as_secs_f64();
                        // (pictures of several gigabytes take long)
                        let limit = if !js.starts_with("{\"probe\":\"giant\"") {
                            HANG_CPU_S
                        } else if ctx.thorough {
                            2500.0
                        } else {
                            350.0
                        };
                        if cpu > limit || (wall > STUCK_S && cpu < 0.02 * wall) {
                            let v: Value = serde_json::from_str(js).unwrap();
                            let f = Failure {
                                probe: v["probe"].as_str().unwrap_or("").into(),
                                case: v["case"].clone(),
                                msg: format!("no result after {wall:.0} s, {cpu:.0} s of processor time"),
                            };
                            let p = ctx.write_replay(&f);
                            println!("  {}: {}", f.probe, f.msg);
                            println!("VIOLATION property={} replay={p}", ctx.id);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        let runs = probes.iter().map(|p| (p, false)).chain(probes.iter().filter(|p| p.guided.is_some()).map(|p| (p, true)));
        for (p, guided) in runs {
            let t = Instant::now();
            let (st, f) = if guided { p.guided.as_ref().unwrap()(ctx) } else { (p.run)(ctx) };
            let name = format!("{}{}", p.name, if guided { " (coverage-guided)" } else { "" });
            println!(
                "{} {name}: {} cases ({} inner), {} distinct non-trivial, {} skipped, {:.1} s",
                ctx.id,
                st.evals,
                st.inner,
                st.distinct.len(),
                st.skipped,
                t.elapsed().as_secs_f64()
            );
            evals += st.evals;
            inner += st.inner;
            distinct += st.distinct.len();
            skipped += st.skipped;
            if !guided {
                rules.push(format!("{}: {}", p.name, p.rule));
            }
            for s in st.samples.into_iter().take(2) {
                samples.push(json!({"probe": name, "case": s}));
            }
            per.push(json!({"probe": name, "cases": st.evals, "distinct_nontrivial": st.distinct.len(),
                "inner_executions": st.inner, "skipped": st.skipped, "classes": st.tags, "seconds": t.elapsed().as_secs_f64()}));
            if f.is_some() {
                failure = f;
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    cov.insert("evaluations".into(), json!(evals));
    cov.insert("distinct_nontrivial".into(), json!(distinct));
    cov.insert("rule".into(), json!(rules.join(" || ")));
    cov.insert("samples".into(), json!(samples));
    cov.insert("probes".into(), json!(per));
    cov.insert("inner_executions".into(), json!(inner));
    cov.insert("skipped_for_time".into(), json!(skipped));
    cov.insert(
        "builds".into(),
        json!(ctx.variants.iter().map(|v| format!("{} (flags {:#x})", v.name, v.flags)).collect::<Vec<_>>()),
    );
    cov.insert("avx2".into(), json!(std::is_x86_feature_detected!("avx2")));
    cov.insert("libjpeg".into(), json!(ctx.libjpeg.is_some()));
    let ev = json!({
        "property": ctx.id,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u32,
    });
    let d = format!("{}/evidence", ctx.verif);
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{d}/{}.json", ctx.id), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    match failure {
        None => 0,
        Some(f) => {
            let p = ctx.write_replay(&f);
            println!("  {}: {}", f.probe, f.msg);
            println!("  case: {}", f.case);
            println!("VIOLATION property={} replay={p}", ctx.id);
            1
        }
    }
}

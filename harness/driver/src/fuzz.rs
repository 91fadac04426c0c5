//! Coverage-guided search. The input is the stream of random words a generator consumes; what a case executes in an
//! instrumented build of the code under test (edges, and how close the sides of comparisons came) decides which
//! streams are kept and mutated further. Comparisons that have never found their sides equal are approached on
//! purpose: find the words that influence the difference, then search along them. The verdict is the probe's own
//! check, on the ordinary builds.
//!
//! Every shard has its own copy of the instrumented library. Shards exchange what they found between rounds, in a
//! fixed order, so that a run depends on the seed only.
use crate::ctx::*;
use crate::lib_c::Coverage;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcore::case::*;

/// Words that can be mutated.
const WORDS: usize = 1 << 12;
const ROUNDS: u32 = 8;
/// A comparison that has come to a difference of one in this many cases, and never closer, can not be equal.
const BOUNDS_CHECK: u32 = 40;
/// Encodes of one case that are repeated in the instrumented build.
const WATCHED: u32 = 3;

thread_local! {
    static COV: RefCell<Option<Session>> = const { RefCell::new(None) };
}

struct Session {
    lib: Coverage,
    left: u32,
    last: u64,
}

/// Called for every request that goes to a build under test.
pub fn watch(js: &[u8], px: &[u8], rq: &Request) {
    COV.with(|c| {
        if let Ok(mut g) = c.try_borrow_mut() {
            if let Some(s) = g.as_mut() {
                let h = hash(js) ^ px.len() as u64;
                if s.left == 0 || h == s.last || matches!(rq.sink, Sink::File(_)) {
                    return;
                }
                s.last = h;
                s.left -= 1;
                s.lib.run(js, px);
            }
        }
    })
}

/// The same for requests that are answered by another process.
pub fn watch_request(rq: &Request, px: &[u8]) {
    if COV.with(|c| c.try_borrow().is_ok_and(|g| g.is_some())) {
        watch(&serde_json::to_vec(rq).unwrap(), px, rq)
    }
}

/// Lets the instrumented build see what a replayed case does.
pub fn replay(ctx: &Ctx, kind: usize) {
    COV.with(|c| *c.borrow_mut() = Some(Session { lib: Coverage::load(ctx, kind, kind), left: u32::MAX, last: 0 }));
}

fn with<T>(f: impl FnOnce(&mut Session) -> T) -> T {
    COV.with(|c| f(c.borrow_mut().as_mut().unwrap()))
}

fn begin() {
    with(|s| {
        s.left = WATCHED;
        s.last = 0;
        s.lib.reset();
    })
}

fn bucket(n: u8) -> usize {
    match n {
        1 => 0,
        2 => 1,
        3 => 2,
        4..=7 => 3,
        8..=15 => 4,
        16..=31 => 5,
        32..=127 => 6,
        _ => 7,
    }
}

type Words = Vec<u32>;

/// A comparison whose sides have not been equal yet.
#[derive(Clone)]
struct Goal {
    diff: u64,
    words: Arc<Words>,
    tries: u32,
}

/// What has been reached so far.
#[derive(Clone, Default)]
struct Map {
    edges: Vec<u64>,
    /// Hamming distances, magnitudes, how many cases came to a difference of one and not closer
    sites: HashMap<u64, (u64, u64, u32)>,
    goals: BTreeMap<u64, Goal>,
}

impl Map {
    fn features(&self) -> u64 {
        self.edges.iter().map(|x| x.count_ones() as u64).sum::<u64>()
            + self.sites.values().map(|x| (x.0.count_ones() + x.1.count_ones()) as u64).sum::<u64>()
    }
    fn merge(&mut self, o: &Map) {
        self.edges.resize(self.edges.len().max(o.edges.len()), 0);
        for (a, b) in self.edges.iter_mut().zip(&o.edges) {
            *a |= b;
        }
        for (k, v) in &o.sites {
            let e = self.sites.entry(*k).or_default();
            e.0 |= v.0;
            e.1 |= v.1;
            e.2 = e.2.max(v.2);
        }
        for (k, g) in &o.goals {
            match self.goals.get_mut(k) {
                Some(h) => {
                    let t = h.tries.max(g.tries);
                    if g.diff < h.diff {
                        *h = g.clone();
                    }
                    h.tries = t;
                }
                None => {
                    self.goals.insert(*k, g.clone());
                }
            }
        }
        let sites = &self.sites;
        self.goals.retain(|k, _| sites.get(k).is_none_or(|s| s.0 & 1 == 0 && s.2 < BOUNDS_CHECK));
    }
    /// Adds what the last case reached; says whether some of it is new.
    fn add(&mut self, words: &Rc<Vec<u8>>) -> bool {
        let mut new = false;
        let mut shared: Option<Arc<Words>> = None;
        let mut keep = || -> Arc<Words> {
            shared.get_or_insert_with(|| Arc::new(words.chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect())).clone()
        };
        with(|s| {
            let counters = s.lib.counters();
            self.edges.resize(counters.len().div_ceil(8), 0);
            for (i, c) in counters.iter().enumerate() {
                if *c > 0 {
                    let bit = 1 << (i % 8 * 8 + bucket(*c));
                    new |= self.edges[i / 8] & bit == 0;
                    self.edges[i / 8] |= bit;
                }
            }
            for x in s.lib.sites() {
                let e = self.sites.entry(x.key).or_default();
                new |= x.hamming & !e.0 != 0 || x.magnitude & !e.1 != 0;
                e.0 |= x.hamming;
                e.1 |= x.magnitude;
                e.2 += (x.smallest == 1) as u32;
                if e.0 & 1 == 1 || e.2 >= BOUNDS_CHECK {
                    self.goals.remove(&x.key);
                } else if self.goals.get(&x.key).is_none_or(|g| g.diff > x.smallest) {
                    let tries = self.goals.get(&x.key).map_or(0, |g| g.tries);
                    self.goals.insert(x.key, Goal { diff: x.smallest, words: keep(), tries });
                }
            }
        });
        new
    }
}

fn diff_at(key: u64) -> Option<u64> {
    with(|s| s.lib.sites().find(|x| x.key == key).map(|x| x.smallest))
}

/// the smallest difference of every comparison of the last case
fn diffs() -> Vec<(u64, u64)> {
    with(|s| s.lib.sites().map(|x| (x.key, x.smallest)).collect())
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
}

fn mutate(r: &mut Rng, src: &Words, other: &Words) -> Words {
    let mut w = src.clone();
    for _ in 0..1 + r.below(4) {
        if w.is_empty() {
            w.push(0);
        }
        let i = r.below(w.len());
        match r.below(11) {
            0 | 1 => w[i] = r.next() as u32,
            2 => w[i] = [0, u32::MAX, 1 << 31, 1, u32::MAX - 1][r.below(5)],
            3 | 4 => {
                // a small step of a value drawn from a range of any size
                let d = (1 + r.below(16) as u32) << r.below(32);
                w[i] = if r.below(2) == 0 { w[i].wrapping_add(d) } else { w[i].wrapping_sub(d) };
            }
            5 => w[i] ^= 1 << r.below(32),
            6 | 7 => {
                // the same stretch of another input
                let n = 1 + r.below(24);
                for k in i..(i + n).min(other.len()).min(w.len()) {
                    w[k] = other[k];
                }
            }
            8 => w.insert(i, r.next() as u32),
            9 => {
                w.remove(i);
            }
            _ => {
                let (j, n) = (r.below(w.len()), 1 + r.below(12));
                for k in 0..n {
                    if i + k < w.len() && j + k < w.len() {
                        w[i + k] = w[j + k];
                    }
                }
            }
        }
    }
    w.truncate(WORDS);
    w
}

struct Shard {
    no: usize,
    kind: usize,
    lib: Option<Coverage>,
    map: Map,
    corpus: Vec<Arc<Words>>,
    fresh: Vec<Arc<Words>>,
    rng: Rng,
    stats: Stats,
    failure: Option<Failure>,
    solved: u64,
}

/// How many words the generator has taken.
fn consumed(r: &TestRng) -> usize {
    let d = format!("{r:?}");
    d.split("off: ").nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|t| t.parse().ok()).unwrap_or(0) / 4
}

struct Job<'a, C, S> {
    ctx: &'a Ctx,
    name: &'static str,
    strat: S,
    test: fn(&Ctx, &C) -> R,
    tail: &'a [u8],
    cfg: Config,
}

impl<C, S> Job<'_, C, S>
where
    C: Serialize + Debug + Clone,
    S: Strategy<Value = C>,
{
    /// Runs the case made from these words; true: go on.
    fn run(&self, s: &mut Shard, words: &[u32]) -> bool {
        if s.failure.is_some() {
            return false;
        }
        if self.ctx.failed.load(Ordering::Relaxed) || Instant::now() > self.ctx.deadline {
            s.stats.skipped += 1;
            return false;
        }
        let mut bytes = Vec::with_capacity(self.tail.len());
        words.iter().take(WORDS).for_each(|w| bytes.extend_from_slice(&w.to_le_bytes()));
        bytes.extend_from_slice(&self.tail[bytes.len()..]);
        let mut runner = TestRunner::new_with_rng(self.cfg.clone(), TestRng::from_seed(RngAlgorithm::PassThrough, &bytes));
        let Ok(tree) = self.strat.new_tree(&mut runner) else { return true };
        let c = tree.current();
        let js = serde_json::to_string(&c).unwrap();
        begin();
        match self.one(s.no, &js, &c) {
            Ok(m) => {
                s.stats.add(&js, &|| serde_json::to_value(&c).unwrap(), m);
                let used = consumed(runner.rng());
                bytes.truncate(used.max(1) * 4);
                let bytes = Rc::new(bytes);
                if s.map.add(&bytes) {
                    let w: Arc<Words> = Arc::new(bytes.chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect());
                    s.corpus.push(w.clone());
                    s.fresh.push(w);
                }
                true
            }
            Err(e) => {
                self.ctx.failed.store(true, Ordering::Relaxed);
                s.lib = COV.with(|c| c.borrow_mut().take()).map(|x| x.lib);
                let (case, msg) = shrink(tree, c, e, &|c| self.one(s.no, &serde_json::to_string(c).unwrap(), c).err());
                s.failure = Some(Failure { probe: self.name.into(), case: serde_json::to_value(&case).unwrap(), msg });
                false
            }
        }
    }

    fn one(&self, no: usize, js: &str, c: &C) -> R {
        self.ctx.enter(no, &format!("{{\"probe\":\"{}\",\"case\":{js}}}", self.name));
        let r = guard(self.ctx, &self.test, c);
        self.ctx.leave(no);
        r
    }

    /// Mutations of what has been found.
    fn explore(&self, s: &mut Shard) -> bool {
        let words: Words = if s.corpus.len() < 4 || s.rng.below(5) == 0 {
            (0..256).map(|_| s.rng.next() as u32).collect()
        } else {
            // recent ones more often
            let l = s.corpus.len();
            let pick = |r: &mut Rng| if r.below(2) == 0 { r.below(l) } else { l - 1 - r.below((l / 4).max(1)) };
            let (a, b) = (pick(&mut s.rng), pick(&mut s.rng));
            mutate(&mut s.rng, &s.corpus[a].clone(), &s.corpus[b].clone())
        };
        self.run(s, &words)
    }

    /// Solves for one word, assuming that one side of the comparison is proportional to it. None: stop.
    fn linear(&self, s: &mut Shard, w: &Words, i: usize, key: u64, at: &mut dyn FnMut(&mut Shard, &Words) -> bool) -> Option<bool> {
        let mut w = w.clone();
        let mut end = |s: &mut Shard, w: &mut Words, x: u32| -> Option<Option<u64>> {
            w[i] = x;
            at(s, w).then(|| diff_at(key))
        };
        let (Some(a), Some(b)) = (end(s, &mut w, 0)?, end(s, &mut w, u32::MAX)?) else { return Some(false) };
        if a == 0 || b == 0 {
            return Some(true);
        }
        if a == b {
            return Some(false);
        }
        let x = (a as f64 / (a as f64 + b as f64) * 4294967296.0) as u32;
        Some(end(s, &mut w, x)? == Some(0))
    }

    /// Takes the input that came closest in one comparison, finds the words that matter for any of the comparisons
    /// met there, and searches along them for equality. Returns the number of cases used.
    fn solve(&self, s: &mut Shard, key: u64, budget: u32) -> u32 {
        let Some(g) = s.map.goals.get(&key) else { return 0 };
        let base = (*g.words).clone();
        let mut used = 0;
        let mut at = |s: &mut Shard, w: &Words, used: &mut u32| -> bool {
            if *used >= budget || !self.run(s, w) {
                *used = budget;
                return false;
            }
            *used += 1;
            true
        };
        if !at(s, &base, &mut used) {
            return used;
        }
        let open: HashMap<u64, u64> = diffs().into_iter().filter(|(k, _)| s.map.goals.contains_key(k)).collect();
        for k in open.keys().chain([&key]) {
            if let Some(g) = s.map.goals.get_mut(k) {
                g.tries += 1;
            }
        }
        let mut hot: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for i in 0..base.len().min(250) {
            let mut w = base.clone();
            w[i] ^= 0xAAAA_AAAA;
            if !at(s, &w, &mut used) {
                return used;
            }
            for (k, d) in diffs() {
                if open.get(&k).is_some_and(|e| *e != d) {
                    hot.entry(k).or_default().push(i);
                }
            }
        }
        let mut hot: Vec<(u64, Vec<usize>)> = hot.into_iter().collect();
        hot.sort_by_key(|(k, v)| (*k != key, s.map.goals.get(k).map_or(0, |g| g.tries), v.len(), mix(*k)));
        for (k, words) in hot {
            let again = s.map.goals.get(&k).is_some_and(|g| g.tries > 2);
            // the last ones: earlier words may only shift the later ones
            for i in words.into_iter().rev().take(4) {
                // the word itself, or the words after it when it selects a way of generating them
                let mut done = self.linear(s, &base, i, k, &mut |s, w| at(s, w, &mut used));
                for set in 0..16u32 {
                    let mut w = base.clone();
                    w[i] = set << 28 | 0x0800_0000;
                    for j in i + 1..(i + 4).min(w.len()) {
                        if done == Some(false) {
                            done = self.linear(s, &w, j, k, &mut |s, w| at(s, w, &mut used));
                        }
                    }
                }
                // small steps
                if again && done == Some(false) {
                    let (mut best, mut d) = (base.clone(), open[&k]);
                    for bit in (0..32).rev() {
                        for up in [true, false] {
                            let mut w = best.clone();
                            w[i] = if up { w[i].wrapping_add(1 << bit) } else { w[i].wrapping_sub(1 << bit) };
                            if !at(s, &w, &mut used) {
                                return used;
                            }
                            match diff_at(k) {
                                Some(e) if e < d => (best, d) = (w, e),
                                _ => {}
                            }
                        }
                    }
                    if d == 0 {
                        done = Some(true);
                    }
                }
                match done {
                    None => return used,
                    Some(true) => {
                        s.solved += 1;
                        break;
                    }
                    Some(false) => {}
                }
            }
        }
        used
    }
}

pub fn run<C, S>(ctx: &Ctx, name: &'static str, strat: fn() -> S, test: fn(&Ctx, &C) -> R, total: u32) -> (Stats, Option<Failure>)
where
    C: Serialize + Debug + Clone,
    S: Strategy<Value = C>,
{
    let base = hash(format!("cov/{}/{}/{}", ctx.id, name, ctx.seed).as_bytes());
    // what follows the words of an input: the same for all
    let mut t = Rng(base);
    let tail: Vec<u8> = (0..WORDS).flat_map(|_| (t.next() as u32).to_le_bytes()).collect();
    let mut shards: Vec<Shard> = (0..SHARDS)
        .map(|no| Shard {
            no,
            kind: no % 2,
            lib: None,
            map: Map::default(),
            corpus: vec![],
            fresh: vec![],
            rng: Rng(mix(base.wrapping_add(1 + no as u64))),
            stats: Stats::default(),
            failure: None,
            solved: 0,
        })
        .collect();
    let per = (total / SHARDS as u32 / ROUNDS).max(1);
    for round in 0..ROUNDS {
        std::thread::scope(|sc| {
            for s in shards.iter_mut() {
                let tail = &tail;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let lib = s.lib.take().unwrap_or_else(|| Coverage::load(ctx, s.no, s.kind));
                        COV.with(|c| *c.borrow_mut() = Some(Session { lib, left: 0, last: 0 }));
                        let job = Job { ctx, name, strat: strat(), test, tail, cfg: Config { failure_persistence: None, ..Config::default() } };
                        // half of the cases for exploring, half for comparisons (not in the first round)
                        let mut left = per as i64;
                        let goals = if round == 0 { 0 } else { per as i64 / 2 };
                        while left > goals && job.explore(s) {
                            left -= 1;
                        }
                        // those whose difference has varied first
                        let mut todo: Vec<(bool, u32, u64, u64)> = s
                            .map
                            .goals
                            .iter()
                            .filter(|(k, _)| mix(**k) as usize / 2 % (SHARDS / 2) == s.no / 2)
                            .map(|(k, g)| (s.map.sites[k].1.count_ones() < 2 || g.tries > 3, g.tries, mix(*k ^ base), *k))
                            .collect();
                        todo.sort_unstable();
                        for (_, _, _, k) in todo {
                            if left <= 0 {
                                break;
                            }
                            left -= job.solve(s, k, left as u32) as i64;
                        }
                        while left > 0 && job.explore(s) {
                            left -= 1;
                        }
                        if s.failure.is_none() {
                            s.lib = COV.with(|c| c.borrow_mut().take()).map(|x| x.lib);
                        }
                    })
                    .expect("thread");
            }
        });
        if shards.iter().any(|s| s.failure.is_some()) || Instant::now() > ctx.deadline || round + 1 == ROUNDS {
            break;
        }
        // everybody gets everything that was new to somebody
        let all: Vec<Vec<Arc<Words>>> = shards.iter_mut().map(|s| std::mem::take(&mut s.fresh)).collect();
        for (i, s) in shards.iter_mut().enumerate() {
            for (j, f) in all.iter().enumerate() {
                if i != j {
                    s.corpus.extend(f.iter().cloned());
                }
            }
        }
        for kind in 0..2 {
            let mut m = Map::default();
            for s in shards.iter().filter(|s| s.kind == kind) {
                m.merge(&s.map);
            }
            for s in shards.iter_mut().filter(|s| s.kind == kind) {
                s.map = m.clone();
            }
        }
    }
    if std::env::var("JE_GOALS").is_ok() {
        for s in &shards[..2] {
            for (k, g) in &s.map.goals {
                let v = s.map.sites[k];
                eprintln!("goal {} {} {} {} {}", s.kind, *k as i64 - (1 << 48), g.diff, g.tries, v.1.count_ones());
            }
        }
    }
    let mut st = Stats::default();
    let mut f = None;
    for s in shards {
        st.merge(s.stats);
        let kind = ["scalar", "simd"][s.kind];
        let mut max = |k: &str, v: u64| {
            let e = st.tags.entry(format!("{k} ({kind})")).or_default();
            *e = (*e).max(v);
        };
        max("coverage features", s.map.features());
        max("comparisons met", s.map.sites.len() as u64);
        max("comparisons never equal", s.map.goals.len() as u64);
        *st.tags.entry("comparisons solved".into()).or_default() += s.solved;
        *st.tags.entry("inputs kept for new coverage".into()).or_default() += s.corpus.len() as u64 / SHARDS as u64;
        if f.is_none() {
            f = s.failure;
        }
    }
    (st, f)
}

fn shrink<C, T>(mut tree: T, first: C, why: String, fails: &dyn Fn(&C) -> Option<String>) -> (C, String)
where
    T: ValueTree<Value = C>,
{
    let t = Instant::now();
    let mut best = (first, why);
    if tree.simplify() {
        for _ in 0..3000 {
            if t.elapsed() > Duration::from_secs(90) {
                break;
            }
            let c = tree.current();
            match fails(&c) {
                Some(e) => {
                    best = (c, e);
                    if !tree.simplify() {
                        break;
                    }
                }
                None => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    best
}

/// Serializes the copying of libraries.
pub static COPY: Mutex<()> = Mutex::new(());

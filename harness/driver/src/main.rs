//! driver check ID        run all probes of a property (in a child process)
//! driver run ID          the child
//! driver replay FILE     re-run one recorded case
mod ctx;
mod fuzz;
mod gen;
mod lib_c;
mod props;
mod worker;

use ctx::*;
use serde_json::Value;
use std::process::{exit, Command};
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

fn context(id: &str, names: &[&str], scratch: &str) -> Ctx {
    let verif = env("JE_VERIF", "/verif");
    let libs = env("JE_LIBS", &format!("{verif}/build/libs"));
    let thorough = env("VERIF_TIER", "quick") == "thorough";
    let mut variants = vec![];
    for n in names {
        match lib_c::Variant::load(n, &format!("{libs}/{n}/libvariant.so")) {
            Ok(v) => variants.push(v),
            Err(e) => {
                eprintln!("HARNESS ERROR: {e}");
                exit(2);
            }
        }
    }
    let limit: u64 = env("JE_LIMIT", if thorough { "14400" } else { "480" }).parse().unwrap();
    Ctx {
        id: id.into(),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        thorough,
        scale: env("JE_SCALE", "1").parse().unwrap_or(1.0),
        libjpeg: lib_c::LibJpeg::load(&format!("{libs}/ljshim.so")),
        verif,
        scratch: scratch.into(),
        libs,
        variants,
        failed: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs(limit),
        slots: (0..SHARDS).map(|_| Mutex::new(None)).collect(),
        cache: Default::default(),
    }
}

fn replay(file: &str, scratch: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
        Some(v) => v,
        None => {
            eprintln!("HARNESS ERROR: can not read {file}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or_default().to_string();
    let Some(p) = props::plan(&id) else { return 2 };
    let ctx = context(&id, p.variants, scratch);
    let name = v["probe"].as_str().unwrap_or_default();
    let Some(probe) = p.probes.iter().find(|p| p.name == name) else { return 2 };
    if env("JE_WATCH", "") == "1" && probe.guided.is_some() {
        // after a crash: also in the instrumented builds
        for kind in 0..2 {
            fuzz::replay(&ctx, kind);
            let _ = (probe.replay)(&ctx, &v["case"]);
        }
    }
    match (probe.replay)(&ctx, &v["case"]) {
        Ok(()) => {
            println!("{id} {name}: holds on {file}");
            0
        }
        Err(e) => {
            println!("  {name}: {e}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

/// The child ended without a verdict: the code under test took the process down. Find the case.
fn triage(id: &str, scratch: &str, why: &str) -> i32 {
    eprintln!("{id}: the checking process ended abnormally ({why}); re-running the cases it was working on");
    for s in 0..SHARDS {
        let Ok(js) = std::fs::read_to_string(format!("{scratch}/slot{s}")) else { continue };
        let Ok(mut v) = serde_json::from_str::<Value>(&js) else { continue };
        v["property"] = id.into();
        v["message"] = format!("the process ended abnormally ({why})").into();
        let verif = env("JE_VERIF", "/verif");
        let _ = std::fs::create_dir_all(format!("{verif}/replays"));
        let p = format!("{verif}/replays/{id}-crash-{:08x}.json", hash(js.as_bytes()) as u32);
        std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
        let mut ch = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&p).env("JE_WATCH", "1").spawn().unwrap();
        let t = Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            if t.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let code = st.and_then(|s| s.code());
        if st.is_none() || code == Some(0) || code == Some(2) {
            let _ = std::fs::remove_file(&p);
            continue;
        }
        println!("  {}: process ended with {st:?}", v["probe"]);
        println!("VIOLATION property={id} replay={p}");
        return 1;
    }
    eprintln!("HARNESS ERROR: no recorded case reproduces the abnormal end");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = env("JE_VERIF", "/verif");
    match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => {
            if props::plan(id).is_none() {
                eprintln!("unknown property {id}");
                exit(2);
            }
            let scratch = format!("{verif}/build/scratch/{id}-{}", std::process::id());
            std::fs::create_dir_all(&scratch).expect("scratch");
            let st = Command::new(std::env::current_exe().unwrap()).arg("run").arg(id).arg(&scratch).status().unwrap();
            let code = match st.code() {
                Some(c @ 0..=2) => c,
                _ => triage(id, &scratch, &st.to_string()),
            };
            let _ = std::fs::remove_dir_all(&scratch);
            exit(code);
        }
        (Some("run"), Some(id)) => {
            let p = props::plan(id).unwrap();
            let ctx = context(id, p.variants, &a[3]);
            let only = env("JE_PROBE", "");
            let probes = p.probes.into_iter().filter(|p| only.is_empty() || p.name == only).collect();
            exit(run_all(&ctx, p.level, probes, &p.assumptions));
        }
        (Some("replay"), Some(f)) => {
            let scratch = format!("{verif}/build/scratch/replay-{}", std::process::id());
            std::fs::create_dir_all(&scratch).expect("scratch");
            let r = replay(f, &scratch);
            let _ = std::fs::remove_dir_all(&scratch);
            exit(r);
        }
        _ => {
            eprintln!("usage: driver check ID | driver replay FILE");
            exit(2);
        }
    }
}

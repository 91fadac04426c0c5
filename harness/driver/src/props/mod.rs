//! The properties as executable checks.
mod builds;
mod content;
mod faults;
mod memory;
mod structure;

use crate::ctx::*;
use crate::worker::Worker;
use std::collections::HashMap;
use std::sync::Mutex;
use vcore::case::*;
use vcore::jpeg::Jpeg;

#[derive(Default)]
pub struct Caches {
    pools: Mutex<HashMap<String, Vec<Worker>>>,
}

pub struct Plan {
    pub level: &'static str,
    /// builds loaded into the driver
    pub variants: &'static [&'static str],
    pub probes: Vec<Probe>,
    pub assumptions: Vec<String>,
}

pub const ALL: &[&str] = &["scalar-release", "scalar-checked", "simd-release", "simd-checked", "nostd-release"];

pub fn plan(id: &str) -> Option<Plan> {
    let p = |probes: Vec<Probe>, a: &[&str]| Plan {
        level: "exploration",
        variants: ALL,
        probes,
        assumptions: a.iter().map(|s| s.to_string()).collect(),
    };
    let own = "the harness's own strict T.81 parser and floating point models (vcore) are correct; they are cross-checked against libjpeg-turbo and jpeg-decoder";
    Some(match id {
        "C01" => p(structure::c01(), &[own]),
        "C02" => p(content::c02(), &[own]),
        "C03" => p(structure::c03(), &[own]),
        "C04" => p(structure::c04(), &[own]),
        "C05" => p(faults::c05(), &["32 bit behaviour is observed on i686"]),
        "C06" => p(
            builds::c06(),
            &["32 bit is represented by i686, big-endian by s390x under Miri", "x86 SIMD is exercised only if the machine has AVX2 (see coverage.avx2)"],
        ),
        "C07" => p(builds::c07(), &["AddressSanitizer, guard pages, debug assertions of the standard library and Miri detect the undefined behaviour in question"]),
        "C08" => p(content::c08(), &[own]),
        "C09" => p(content::c09(), &[]),
        "C10" => p(structure::c10(), &[own]),
        "C11" => Plan { level: "fault_enumeration", ..p(faults::c11(), &[]) },
        "C12" => p(faults::c12(), &["/dev/full behaves as on Linux"]),
        "C13" => p(structure::c13(), &[own]),
        "C14" => p(structure::c14(), &["base tables transcribed in vcore/src/tables.rs from the published sources"]),
        "C15" => p(structure::c15(), &[own]),
        "C16" => p(structure::c16(), &[]),
        "C17" => p(content::c17(), &[own]),
        "C18" => p(structure::c18(), &[own]),
        "C19" => p(faults::c19(), &["thread interleavings are sampled, not controlled"]),
        "C20" => p(content::c20(), &["libjpeg-turbo and jpeg-decoder decode correctly"]),
        "C22" => p(memory::c22(), &["memory is obtained through the global allocator"]),
        "C23" => p(faults::c23(), &[]),
        "C21" => p(content::c21(), &[own]),
        _ => return None,
    })
}

// ---------------------------------------------------------------- helpers

pub fn nontrivial(j: &Jpeg) -> bool {
    let blocks: usize = j.comps.iter().map(|c| c.coefs.len()).sum();
    blocks > 1 && j.comps.iter().any(|c| c.coefs.iter().any(|b| b[1..].iter().any(|v| *v != 0)))
}

pub fn class(c: &Case) -> String {
    let m = match (c.cfg.nscans(), c.cfg.interleaved()) {
        (Some(n), _) if n > 33 => "progressive>33",
        (Some(_), _) => "progressive",
        (None, true) => "interleaved",
        (None, false) => "sequential",
    };
    format!(
        "{m}{}{}/{}",
        if c.cfg.opt { "+opt" } else { "" },
        if c.cfg.restart > 0 { "+restart" } else { "" },
        ["luma", "ycbcr", "cmyk", "ycck"][c.entry.jct() as usize]
    )
}

pub fn tags(m: M, c: &Case) -> M {
    m.tag(class(c)).tag(format!("pattern {}", c.img.pat.name()))
}

/// real blocks of a component, row by row
pub fn real_blocks(j: &Jpeg, ci: usize) -> Vec<[i16; 64]> {
    let c = &j.comps[ci];
    let mut v = Vec::with_capacity(c.bw * c.bh);
    for y in 0..c.bh {
        for x in 0..c.bw {
            v.push(*c.block(x, y));
        }
    }
    v
}

pub fn same_picture(a: &Jpeg, b: &Jpeg) -> Result<(), String> {
    if (a.w, a.h, a.comps.len()) != (b.w, b.h, b.comps.len()) {
        return Err("different frame size or component count".into());
    }
    for i in 0..a.comps.len() {
        if a.q(i) != b.q(i) {
            return Err(format!("component {i} uses different quantization tables"));
        }
        let (x, y) = (&a.comps[i], &b.comps[i]);
        if (x.bw, x.bh, x.h, x.v) != (y.bw, y.bh, y.h, y.v) {
            return Err(format!("component {i} has different dimensions"));
        }
        for by in 0..x.bh {
            for bx in 0..x.bw {
                let (p, q) = (x.block(bx, by), y.block(bx, by));
                if p != q {
                    let k = (0..64).find(|k| p[*k] != q[*k]).unwrap();
                    return Err(format!(
                        "component {i} block {bx},{by} coefficient {k}: {} in one mode, {} in the other",
                        p[k], q[k]
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn same_bytes(a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Err(format!(
        "{what}: outputs differ at byte {k} (lengths {} and {}; {:02x?} vs {:02x?})",
        a.len(),
        b.len(),
        &a[k..a.len().min(k + 4)],
        &b[k..b.len().min(k + 4)]
    ))
}

/// Runs one request in a worker process of the given build.
pub fn work(ctx: &Ctx, name: &str, rq: &Request, px: &[u8]) -> (Response, Vec<u8>) {
    work_env(ctx, name, &[], rq, px)
}

pub fn spawn(ctx: &Ctx, name: &str, env: &[(&str, &str)]) -> Worker {
    let e: Vec<(String, String)> = env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    Worker::spawn(&format!("{}/{name}/worker", ctx.libs), &e)
}

/// Runs requests at the same time in a worker process of the given build; Err if the process died.
pub fn work_together(ctx: &Ctx, name: &str, all: &[(Request, Vec<u8>)]) -> Result<Vec<(Response, Vec<u8>)>, String> {
    let key = name.to_string();
    let mut w = {
        let mut g = ctx.cache.pools.lock().unwrap();
        g.entry(key.clone()).or_default().pop()
    }
    .unwrap_or_else(|| spawn(ctx, name, &[]));
    let r = w.run_together(all);
    if r.is_ok() {
        ctx.cache.pools.lock().unwrap().entry(key).or_default().push(w);
    }
    r
}

pub fn work_env(ctx: &Ctx, name: &str, env: &[(&str, &str)], rq: &Request, px: &[u8]) -> (Response, Vec<u8>) {
    crate::fuzz::watch_request(rq, px);
    let key = format!("{name}{env:?}");
    let mut w = {
        let mut g = ctx.cache.pools.lock().unwrap();
        g.entry(key.clone()).or_default().pop()
    }
    .unwrap_or_else(|| spawn(ctx, name, env));
    let r = w.run(rq, px);
    if !matches!(r.0.outcome, Outcome::Died(_)) {
        ctx.cache.pools.lock().unwrap().get_mut(&key).unwrap().push(w);
    }
    r
}

/// the conversion of the build with index 0 (checked against the equations by C08)
pub fn conv(ctx: &Ctx, px: &[u8]) -> Vec<u8> {
    ctx.v(0).convert(0, px).unwrap_or_else(|| vec![0; px.len()])
}

//! C22: memory.
use crate::ctx::*;
use crate::gen;
use crate::lib_c::Accounting;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use vcore::case::*;

use super::*;

fn builds(ctx: &Ctx) -> &'static [Accounting] {
    static B: OnceLock<Vec<Accounting>> = OnceLock::new();
    B.get_or_init(|| ["count-scalar", "count-simd", "count-nostd"].map(|n| Accounting::load(&ctx.libs, n)).into())
}

/// How an encode ends.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Success,
    /// the destination reports an error after so many bytes
    Full(u32),
    /// the destination panics after so many bytes
    Panic(u32),
    /// the image source panics at this row
    Source(u16),
    /// no data for this size
    Refused(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mem {
    case: Case,
    end: End,
    build: u8,
}

fn mem_of(case: BoxedStrategy<Case>) -> BoxedStrategy<Mem> {
    let at = prop_oneof![1 => 0..700u32, 2 => 0..6000u32, 1 => Just(0u32), 1 => 0..200_000u32];
    let side = prop_oneof![Just(65535u16), Just(1u16), any::<u16>()];
    let end = prop_oneof![
        4 => Just(End::Success),
        2 => at.clone().prop_map(End::Full),
        1 => at.prop_map(End::Panic),
        1 => any::<u16>().prop_map(End::Source),
        1 => (side.clone(), side).prop_map(|(w, h)| End::Refused(w, h)),
    ];
    (case, end, 0..3u8).prop_map(|(case, end, build)| Mem { case, end, build }).boxed()
}
fn small() -> BoxedStrategy<Mem> {
    mem_of(gen::case(90))
}
fn big() -> BoxedStrategy<Mem> {
    mem_of(gen::case_big())
}

fn t_memory(ctx: &Ctx, m: &Mem) -> R {
    let b = &builds(ctx)[m.build as usize % 3];
    let mut rq = m.case.request(Sink::Vec);
    let px = m.case.pixels();
    let cfg = &m.case.cfg;
    let meta: u64 = rq
        .ops
        .iter()
        .map(|o| match o {
            Op::App { data, .. } | Op::Icc(data) => data.bytes().len() as u64,
            _ => 0,
        })
        .sum();
    // what the caller holds: settings, metadata, the adapter's own notes
    let held = (160 << 10) + 6 * meta + 1024 * rq.ops.len() as u64 + 2 * m.case.img.h as u64;
    let (room, mode) = match m.end {
        End::Success => (u64::MAX, 0),
        End::Full(n) => (n as u64, 0),
        End::Panic(n) => (n as u64, 1),
        End::Source(r) => {
            rq.entry = Entry::Custom { jct: m.case.entry.jct(), mode: BufMode::PanicAt(r % m.case.img.h) };
            (u64::MAX, 0)
        }
        End::Refused(w, h) => {
            (rq.w, rq.h) = (w.max(1), h.max(1));
            (u64::MAX, 2)
        }
    };
    let f = b.run(&rq, &px, room, mode);
    let want = match m.end {
        End::Success => f.outcome == 0,
        End::Full(_) => f.outcome <= 1,
        End::Panic(_) => f.outcome == 0 || f.outcome == 2,
        End::Source(_) => f.outcome == 2,
        End::Refused(..) => f.outcome == 1,
    };
    if !want {
        return Err(format!("[{}] outcome {} for {:?}", b.name, f.outcome, m.end));
    }
    if f.bytes_left != 0 || f.blocks_left != 0 {
        return Err(format!("[{}] {} bytes in {} blocks are still allocated after the encode", b.name, f.bytes_left, f.blocks_left));
    }
    let (fh, fv) = if m.case.entry.jct() == 0 { (1, 1) } else { cfg.factors() };
    let up = |n: u16, k: usize| (n as usize).div_ceil(k) * k;
    let (w, h) = (up(m.case.img.w, 8 * fh) as u64, up(m.case.img.h, 8 * fv) as u64);
    let streaming = cfg.interleaved();
    let limit = held
        + match m.end {
            End::Refused(..) => 0,
            // a few rows of units, however high the picture is
            _ if streaming => 16 * 4 * w * 8 * fv as u64,
            // all samples and all coefficients
            _ => 24 * 4 * w * h,
        };
    if f.peak as u64 > limit {
        let what = match (&m.end, streaming) {
            (End::Refused(..), _) => "a refused call",
            (_, true) => "an interleaved encode",
            _ => "an encode",
        };
        return Err(format!(
            "[{}] {what} of a {}x{} picture allocated {} bytes at once, more than {limit}",
            b.name, m.case.img.w, m.case.img.h, f.peak
        ));
    }
    let e = match m.end {
        End::Success => "success",
        End::Full(_) => "destination full",
        End::Panic(_) => "destination panics",
        End::Source(_) => "source panics",
        End::Refused(..) => "refused",
    };
    Ok(M::new(f.allocations > 4).tag(e).tag(class(&m.case)).tag(b.name).tag(format!("peak at most 1/{} of the limit", (limit / (f.peak.max(1) as u64)).ilog2().min(6)).replace("1/", "1/2^")))
}

/// The same narrow picture, low and high.
fn high() -> BoxedStrategy<Mem> {
    let cfg = (gen::cfg(), prop_oneof![2 => 1..=4u16, 1 => Just(0u16), 1 => any::<u16>()], proptest::sample::select((0..16u8).filter(|s| SAMPLING[*s as usize].1 <= 2 && SAMPLING[*s as usize].2 <= 2).collect::<Vec<_>>())).prop_map(|(mut c, r, s)| {
        (c.prog, c.opt, c.restart, c.sampling) = (Prog::Off, false, r, Some(s));
        c
    });
    let h = prop_oneof![2 => Just(65535u16), 2 => 60_000..=65535u16, 1 => 5000..=60_000u16];
    (gen::pattern(), prop_oneof![9 => 1..=20u16, 1 => 21..=90u16], h, cfg, gen::builtin(), 0..3u8)
        .prop_map(|(pat, w, h, cfg, entry, build)| Mem { case: Case { img: Image { w, h, pat }, cfg, entry }, end: End::Success, build })
        .boxed()
}

fn t_height(ctx: &Ctx, m: &Mem) -> R {
    let b = &builds(ctx)[m.build as usize % 3];
    let fv = if m.case.entry.jct() == 0 { 1 } else { m.case.cfg.factors().1 };
    if !m.case.cfg.interleaved() {
        return Err("not an interleaved configuration".into());
    }
    let mut low = m.case.clone();
    low.img.h = 16 * fv as u16;
    let f = |c: &Case| b.run(&c.request(Sink::Vec), &c.pixels(), u64::MAX, 0);
    let (a, z) = (f(&low), f(&m.case));
    if a.outcome != 0 || z.outcome != 0 {
        return Err(format!("[{}] outcomes {} and {}", b.name, a.outcome, z.outcome));
    }
    // two more rows of units and some change
    let w = (m.case.img.w as i64 + 32) * 8 * fv as i64 * 4;
    let limit = a.peak + 2 * w + (8 << 10);
    if z.peak > limit {
        return Err(format!(
            "[{}] {} bytes at once for {} rows, {} for {} rows of the same width",
            b.name, a.peak, low.img.h, z.peak, m.case.img.h
        ));
    }
    Ok(M::new(m.case.img.h > 1000).inner(1).tag(b.name).tag(format!("{:+} bytes", (z.peak - a.peak) / 256 * 256)))
}

pub fn c22() -> Vec<Probe> {
    vec![
        prop("height", "an interleaved encode of a narrow picture, low and up to 65535 rows high, restarts of any interval: the peak must not grow; non-trivial: more than 1000 rows", 500, 20_000, high, t_height),
        prop("memory", "full configurations ending in success, errors, panics of the destination or the source, or refusal, in three accounting builds; non-trivial: more than four allocations", 120_000, 3_000_000, small, t_memory),
        prop("memory_big", "as above with long or large images", 1500, 40_000, big, t_memory),
    ]
}

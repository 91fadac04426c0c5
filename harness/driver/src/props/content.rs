//! Properties of the encoded picture: samples, colours, positions.
use super::*;
use crate::gen;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use vcore::refmodel as rm;

fn has_rgb(e: &Entry) -> bool {
    matches!(e, Entry::Encode(1..=4) | Entry::Encode(7))
}

/// The exported conversion against the equations, for the colours of this picture.
fn check_conv(c: &Case, px: &[u8], conv: &dyn Fn(&[u8]) -> Vec<u8>) -> Result<(), String> {
    if !has_rgb(&c.entry) {
        return Ok(());
    }
    let n = c.entry.nch();
    let rev = matches!(c.entry, Entry::Encode(3 | 4));
    let mut rgb = Vec::with_capacity(px.len());
    for p in px.chunks_exact(n) {
        rgb.extend_from_slice(&if rev { [p[2], p[1], p[0]] } else { [p[0], p[1], p[2]] });
    }
    let o = conv(&rgb);
    for (i, t) in rgb.chunks_exact(3).zip(o.chunks_exact(3)) {
        check_ycc(i, t)?;
    }
    Ok(())
}

fn check_ycc(i: &[u8], t: &[u8]) -> Result<(), String> {
    let e = rm::ycc_exact(i[0], i[1], i[2]);
    for k in 0..3 {
        if (t[k] as f64 - e[k]).abs() > 0.51 && !(e[k] > 255.0 && t[k] == 255) {
            return Err(format!("RGB {i:?} converts to YCbCr {t:?}, the equations give {e:.4?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn fid_case() -> BoxedStrategy<(Case, u8)> {
    let q = prop_oneof![4 => gen::qt(), 3 => Just(Some(gen::ones())), 2 => Just(None)];
    (gen::case(64), q, gen::vidx())
        .prop_map(|(mut c, q, v)| {
            c.cfg.qt = q;
            (c, v)
        })
        .boxed()
}
fn fid_big() -> BoxedStrategy<(Case, u8)> {
    (gen::case_big(), gen::vidx()).boxed()
}

fn t_fidelity(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let var = ctx.v(*v as usize);
    let px = c.pixels();
    let d = ctx.encode_px(var, c, &px)?;
    let j = ctx.parsed(&d, var, c)?;
    let cv = |p: &[u8]| conv(ctx, p);
    check_conv(c, &px, &cv)?;
    let worst = rm::check_fidelity(c, &px, &j, &cv).map_err(|e| format!("[{}] {e}", var.name))?;
    Ok(tags(M::new(nontrivial(&j)), c).tag(format!("worst error {:.1} of the allowance", worst)))
}

/// Every possible sum of a block at one quantizer.
fn levels(_: &Ctx) -> Vec<u8> {
    (1..=255).collect()
}

fn t_levels(ctx: &Ctx, q: &u8) -> R {
    let side = 1024usize;
    let mut px = vec![0u8; side * side];
    for b in 0..side * side / 64 {
        let sum = b.min(64 * 255);
        for i in 0..64 {
            let (x, y) = (b % 128 * 8 + i % 8, b / 128 * 8 + i / 8);
            px[y * side + x] = (sum / 64 + usize::from(i < sum % 64)) as u8;
        }
    }
    let table = QT::Custom(vec![*q as u16; 64]);
    let mut cfg = structure::plain_cfg();
    cfg.qt = Some((table.clone(), table));
    cfg.opt = q % 2 == 0;
    let img = Image { w: side as u16, h: side as u16, pat: Pattern::Raw(px) };
    let c = Case { img, cfg, entry: Entry::Encode(0) };
    let v = ctx.v(*q as usize);
    let px = c.pixels();
    let j = ctx.parsed(&ctx.encode_px(v, &c, &px)?, v, &c)?;
    rm::check_fidelity(&c, &px, &j, &|p: &[u8]| p.to_vec()).map_err(|e| format!("[{}] quantizer {q}: {e}", v.name))?;
    Ok(M::new(true).inner(16321))
}

pub fn c02() -> Vec<Probe> {
    vec![
        list("levels", "every sum a block can have (16321) at each of the 255 quantizers, grey (exhaustive); each is non-trivial", levels, t_levels),
        prop(
            "coefficients",
            "full configurations; every coefficient of every block (padding included) against the exact DCT of the source samples; non-trivial: more than one block and a non-zero AC coefficient",
            90_000,
            2_250_000,
            fid_case,
            t_fidelity,
        ),
        prop("coefficients_big", "as above on large images", 600, 15_000, fid_big, t_fidelity),
    ]
}

// ---------------------------------------------------------------- C08

fn slabs(_: &Ctx) -> Vec<u16> {
    (0..256).collect()
}

/// All colours with one value of red through the exported conversions of every build.
fn t_convert(ctx: &Ctx, r: &u16) -> R {
    let mut rgb = Vec::with_capacity(65536 * 3);
    let mut cmyk = Vec::with_capacity(65536 * 4);
    for i in 0..65536u32 {
        let (g, b) = ((i >> 8) as u8, i as u8);
        rgb.extend_from_slice(&[*r as u8, g, b]);
        cmyk.extend_from_slice(&[*r as u8, g, b, (g ^ b).wrapping_add(*r as u8)]);
    }
    for v in &ctx.variants {
        let o = v.convert(0, &rgb).ok_or(format!("[{}] conversion panics", v.name))?;
        for (i, t) in rgb.chunks_exact(3).zip(o.chunks_exact(3)) {
            check_ycc(i, t).map_err(|e| format!("[{}] {e}", v.name))?;
        }
        let k = v.convert(1, &cmyk).ok_or(format!("[{}] conversion panics", v.name))?;
        for ((i, t), y) in cmyk.chunks_exact(4).zip(k.chunks_exact(4)).zip(o.chunks_exact(3)) {
            if t[..3] != *y || t[3] != 255 - i[3] {
                return Err(format!("[{}] CMYK {i:?} converts to {t:?}, expected {y:?} and {}", v.name, 255 - i[3]));
            }
        }
    }
    Ok(M::new(true).inner(65536 * ctx.variants.len() as u64 * 2 - 1))
}

fn slab_formats(ctx: &Ctx) -> Vec<(u16, u8, u8)> {
    // SIMD and scalar builds have different code per format; every colour through each of them
    let vs: &[u8] = if ctx.thorough { &[0, 1, 2, 3, 4] } else { &[0, 2] };
    let mut v = vec![];
    for s in 0..256u16 {
        for f in 1..=5u8 {
            for x in vs {
                v.push((s, f, *x));
            }
        }
    }
    v
}

/// All colours with one value of one channel through the pixel formats. A one-row image is replicated to eight rows,
/// so that at all-ones tables a change of one sample by one level changes a DC coefficient.
fn t_format(ctx: &Ctx, (s, f, vi): &(u16, u8, u8)) -> R {
    let v = ctx.v(*vi as usize);
    let cfg = Cfg {
        quality: 100,
        sampling: Some(0),
        qt: Some(gen::ones()),
        prog: Prog::Off,
        restart: 0,
        opt: false,
        density: Dens::None,
        meta: vec![],
    };
    // format 5 here: CmykAsYcck against Ycck
    let (ct, refct) = if *f == 5 { (7u8, 8u8) } else { (*f, 5u8) };
    let nch = CT_BPP[ct as usize];
    let mut inner = 0;
    // widths that are not multiples of the vector width as well
    for (start, len) in [(0usize, 32768usize + 3), (32771, 32765)] {
        let mut px = Vec::with_capacity(len * nch);
        let mut rgb = Vec::with_capacity(len * 3);
        for i in start..start + len {
            let (r, g, b) = (*s as u8, (i >> 8) as u8, i as u8);
            rgb.extend_from_slice(&[r, g, b]);
            match ct {
                1 => px.extend_from_slice(&[r, g, b]),
                2 => px.extend_from_slice(&[r, g, b, (i * 7) as u8]),
                3 => px.extend_from_slice(&[b, g, r]),
                4 => px.extend_from_slice(&[b, g, r, (i * 7) as u8]),
                _ => px.extend_from_slice(&[r, g, b, (i * 7) as u8]),
            }
        }
        let y = conv(ctx, &rgb);
        let want = if ct == 7 {
            y.chunks_exact(3).zip(px.chunks_exact(4)).flat_map(|(y, p)| [y[0], y[1], y[2], 255 - p[3]]).collect()
        } else {
            y
        };
        let c = Case {
            img: Image { w: len as u16, h: 1, pat: Pattern::Flat(0, 0, 0, 0) },
            cfg: cfg.clone(),
            entry: Entry::Encode(ct),
        };
        let rc = Case { entry: Entry::Encode(refct), ..c.clone() };
        let a = ctx.encode_px(v, &c, &px)?;
        let b = ctx.encode_px(v, &rc, &want)?;
        if a != b {
            return Err(locate_colour(ctx, v, &c, &rc, &px, &want).unwrap_or(format!(
                "[{}] {} and {} forms of the colours with first channel {s} differ",
                v.name, CT_NAMES[ct as usize], CT_NAMES[refct as usize]
            )));
        }
        inner += len as u64;
    }
    Ok(M::new(true).tag(format!("{} [{}]", CT_NAMES[ct as usize], v.name)).inner(inner - 1))
}

/// Finds one pixel whose two forms are stored differently.
fn locate_colour(ctx: &Ctx, v: &crate::lib_c::Variant, c: &Case, rc: &Case, px: &[u8], want: &[u8]) -> Option<String> {
    let (n, m) = (c.entry.nch(), rc.entry.nch());
    for (p, q) in px.chunks(n * 8).zip(want.chunks(m * 8)) {
        let w = (p.len() / n) as u16;
        let mk = |c: &Case| Case { img: Image { w, h: 1, ..c.img.clone() }, ..c.clone() };
        let (a, b) = (ctx.encode_px(v, &mk(c), p).ok()?, ctx.encode_px(v, &mk(rc), q).ok()?);
        if a != b {
            return Some(format!("[{}] {:?} pixels {p:?} are not stored like {q:?}", v.name, c.entry));
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    case: Case,
    alpha: u64,
    trail: Blob,
    v: (u8, u8),
}

fn pairs() -> BoxedStrategy<Pair> {
    (gen::case(70), 1..=8u8, any::<u64>(), gen::blob(40), (gen::vidx(), gen::vidx()))
        .prop_map(|(mut case, ct, alpha, trail, v)| {
            case.entry = Entry::Encode(if ct == 5 { 1 } else { ct });
            Pair { case, alpha, trail, v }
        })
        .boxed()
}

fn t_pair(ctx: &Ctx, p: &Pair) -> R {
    let (va, vb) = (ctx.v(p.v.0 as usize), ctx.v(p.v.1 as usize));
    let c = &p.case;
    let px = c.pixels();
    let n = c.img.w as usize * c.img.h as usize;
    let base = ctx.encode_px(va, c, &px)?;
    let Entry::Encode(ct) = c.entry else { unreachable!() };
    // bytes after the last pixel
    let mut t = px.clone();
    t.extend_from_slice(&p.trail.bytes());
    same_bytes(&base, &ctx.encode_px(vb, c, &t)?, &format!("{} trailing bytes", p.trail.len()))?;
    let mut kinds = 1;
    // alpha
    if ct == 2 || ct == 4 {
        let mut a = px.clone();
        for (i, q) in a.chunks_exact_mut(4).enumerate() {
            q[3] = mix(p.alpha.wrapping_add(i as u64)) as u8;
        }
        same_bytes(&base, &ctx.encode_px(vb, c, &a)?, "alpha values")?;
    }
    let with = |e: u8| Case { entry: Entry::Encode(e), ..c.clone() };
    let cv = |x: &[u8]| conv(ctx, x);
    match ct {
        1..=4 => {
            let nch = CT_BPP[ct as usize];
            let rgb: Vec<[u8; 3]> = px
                .chunks_exact(nch)
                .map(|q| if ct >= 3 { [q[2], q[1], q[0]] } else { [q[0], q[1], q[2]] })
                .collect();
            let flat: Vec<u8> = rgb.iter().flatten().copied().collect();
            for e in [1u8, 2, 3, 4, 5] {
                let d: Vec<u8> = match e {
                    1 => flat.clone(),
                    2 => rgb.iter().enumerate().flat_map(|(i, q)| [q[0], q[1], q[2], i as u8]).collect(),
                    3 => rgb.iter().flat_map(|q| [q[2], q[1], q[0]]).collect(),
                    4 => rgb.iter().enumerate().flat_map(|(i, q)| [q[2], q[1], q[0], !i as u8]).collect(),
                    _ => cv(&flat),
                };
                same_bytes(&base, &ctx.encode_px(vb, &with(e), &d)?, &format!("{} and {} forms", CT_NAMES[ct as usize], CT_NAMES[e as usize]))?;
                kinds += 1;
            }
        }
        7 => {
            let rgb: Vec<u8> = px.chunks_exact(4).flat_map(|q| [q[0], q[1], q[2]]).collect();
            let y = cv(&rgb);
            let d: Vec<u8> = (0..n).flat_map(|i| [y[i * 3], y[i * 3 + 1], y[i * 3 + 2], 255 - px[i * 4 + 3]]).collect();
            same_bytes(&base, &ctx.encode_px(vb, &with(8), &d)?, "CmykAsYcck and Ycck forms")?;
        }
        6 | 8 => {
            // stored samples: inverted inks, or the samples themselves
            let s: Vec<u8> = if ct == 6 { px.iter().map(|x| 255 - x).collect() } else { px.clone() };
            let e = Case { entry: Entry::Custom { jct: if ct == 6 { 2 } else { 3 }, mode: BufMode::Normal }, ..c.clone() };
            same_bytes(&base, &ctx.encode_px(vb, &e, &s)?, "built-in and user supplied ink samples")?;
        }
        _ => unreachable!(),
    }
    let j = ctx.parsed(&base, va, c)?;
    Ok(M::new(nontrivial(&j)).inner(kinds).tag(CT_NAMES[ct as usize]).tag(class(c)))
}

/// Inks as reproduced by an independent decoder.
fn t_ink(ctx: &Ctx, (img, v): &(Image, u8)) -> R {
    let Some(l) = &ctx.libjpeg else { return Ok(M::new(false).tag("no libjpeg")) };
    for ct in [6u8, 7] {
        let c = Case {
            img: img.clone(),
            cfg: Cfg {
                quality: 100,
                sampling: Some(0),
                qt: Some(gen::ones()),
                prog: Prog::Off,
                restart: 0,
                opt: false,
                density: Dens::None,
                meta: vec![],
            },
            entry: Entry::Encode(ct),
        };
        let px = c.pixels();
        let d = ctx.encode_px(ctx.v(*v as usize), &c, &px)?;
        let r = l.decode(&d, img.w as usize, img.h as usize, 4)?;
        let tol = if ct == 6 { 4 } else { 6 };
        for (i, (a, b)) in px.iter().zip(&r.px).enumerate() {
            if (*a as i32 - (255 - *b as i32)).abs() > tol {
                return Err(format!("{}: ink {} of pixel {} is {a}, decoded {}", CT_NAMES[ct as usize], i % 4, i / 4, 255 - b));
            }
        }
    }
    Ok(M::new(img.w > 1))
}

fn ink_case() -> BoxedStrategy<(Image, u8)> {
    (gen::image(40), gen::vidx()).boxed()
}

pub fn c08() -> Vec<Probe> {
    vec![
        list("conversion", "all 2^24 colours through the exported conversions of every build against the equations (exhaustive); one evaluation per value of the first channel", slabs, t_convert),
        list("formats", "all 2^24 colours through each RGB-like pixel format and CmykAsYcck of a scalar and a SIMD build, bytes compared with the pre-converted form (exhaustive)", slab_formats, t_format),
        prop("pairs", "random pictures in all equivalent forms, random alpha and trailing bytes, in two builds; non-trivial: non-zero AC coefficients", 60_000, 1_500_000, pairs, t_pair),
        prop("inks", "CMYK pictures decoded by libjpeg", 30_000, 750_000, ink_case, t_ink),
    ]
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Src {
    case: Case,
    v: (u8, u8),
}

fn src_case(max: u16) -> BoxedStrategy<Src> {
    let c = if max == 0 { gen::case_big() } else { gen::case(max) };
    let mode = prop_oneof![
        Just(BufMode::Normal),
        Just(BufMode::PushUnused),
        any::<u64>().prop_map(BufMode::UnusedSome),
        Just(BufMode::Realloc)
    ];
    (c, 0..4u8, mode, (gen::vidx(), gen::vidx()))
        .prop_map(|(mut case, jct, mode, v)| {
            case.entry = Entry::Custom { jct, mode };
            Src { case, v }
        })
        .boxed()
}
fn src_small() -> BoxedStrategy<Src> {
    src_case(80)
}
fn src_big() -> BoxedStrategy<Src> {
    src_case(0)
}

fn t_source(ctx: &Ctx, s: &Src) -> R {
    let (va, vb) = (ctx.v(s.v.0 as usize), ctx.v(s.v.1 as usize));
    let Entry::Custom { jct, mode } = &s.case.entry else { unreachable!() };
    let px = s.case.pixels();
    let (rs, out) = va.run(&s.case.request(Sink::Vec), &px);
    expect_ok(&rs, &va.name)?;
    if rs.rows.out_of_range > 0 {
        return Err(format!("[{}] {} rows outside the image were requested", va.name, rs.rows.out_of_range));
    }
    if rs.rows.missing > 0 {
        return Err(format!("[{}] {} rows were never requested", va.name, rs.rows.missing));
    }
    let (ct, data): (u8, Vec<u8>) = match jct {
        0 => (0, px),
        1 => (5, px),
        2 => (6, px.iter().map(|x| 255 - x).collect()),
        _ => (8, px),
    };
    let b = Case { entry: Entry::Encode(ct), ..s.case.clone() };
    let want = ctx.encode_px(vb, &b, &data)?;
    same_bytes(&out, &want, &format!("user source ({mode:?}) and {}", CT_NAMES[ct as usize]))?;
    let j = ctx.parsed(&out, va, &s.case)?;
    Ok(tags(M::new(nontrivial(&j)), &s.case).inner(1).tag(format!("{mode:?}").split('(').next().unwrap().to_string()))
}

pub fn c09() -> Vec<Probe> {
    vec![
        prop(
            "sources",
            "user image sources of all four JPEG colour types (well-behaved, filling unused channels, replacing the buffers) against the built-in format with the same samples, in two builds; non-trivial: non-zero AC coefficients",
            150_000,
            3_750_000,
            src_small,
            t_source,
        ),
        prop("sources_big", "as above on large images", 1200, 30_000, src_big, t_source),
    ]
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    case: Case,
    /// changed rectangle, in 1/65536 of the image
    rect: (u16, u16, u16, u16),
    seed: u64,
    v: (u8, u8),
}

fn local_case() -> BoxedStrategy<Local> {
    (gen::case(80), any::<(u16, u16, u16, u16)>(), any::<u64>(), (gen::vidx(), gen::vidx()), 0..4u8)
        .prop_map(|(mut case, mut rect, seed, v, small)| {
            if small > 0 {
                // one pixel or a few
                rect.2 = rect.2 >> (small * 4);
                rect.3 = rect.3 >> (small * 4);
            }
            if seed & 3 == 0 {
                case.cfg.qt = Some(gen::ones());
            }
            Local { case, rect, seed, v }
        })
        .boxed()
}

fn t_local(ctx: &Ctx, l: &Local) -> R {
    let c = &l.case;
    let (w, h, n) = (c.img.w as usize, c.img.h as usize, c.entry.nch());
    let px = c.pixels();
    let at = |f: u16, m: usize| f as usize * m / 65536;
    let (x0, y0) = (at(l.rect.0, w), at(l.rect.1, h));
    let (x1, y1) = ((x0 + at(l.rect.2, w)).min(w - 1), (y0 + at(l.rect.3, h)).min(h - 1));
    let mut q = px.clone();
    for y in y0..=y1 {
        for x in x0..=x1 {
            for k in 0..n {
                let i = (y * w + x) * n + k;
                q[i] = mix(l.seed.wrapping_add(i as u64)) as u8;
            }
        }
    }
    let (va, vb) = (ctx.v(l.v.0 as usize), ctx.v(l.v.1 as usize));
    let a = ctx.parsed(&ctx.encode_px(va, c, &px)?, va, c)?;
    let b = ctx.parsed(&ctx.encode_px(vb, c, &q)?, vb, c)?;
    let hm = a.comps.iter().map(|c| c.h).max().unwrap();
    let vm = a.comps.iter().map(|c| c.v).max().unwrap();
    let mut changed = 0;
    for ci in 0..a.comps.len() {
        let (p, r) = (&a.comps[ci], &b.comps[ci]);
        let (bw, bh) = (hm / p.h * 8, vm / p.v * 8);
        for by in 0..p.bh {
            for bx in 0..p.bw {
                if p.block(bx, by) == r.block(bx, by) {
                    continue;
                }
                changed += 1;
                let inside = bx * bw <= x1 && (bx + 1) * bw > x0 && by * bh <= y1 && (by + 1) * bh > y0;
                if !inside {
                    return Err(format!(
                        "pixels {x0}..={x1} x {y0}..={y1} changed, but so did block {bx},{by} of component {ci}, which covers {}..{} x {}..{}",
                        bx * bw, (bx + 1) * bw, by * bh, (by + 1) * bh
                    ));
                }
            }
        }
    }
    let total: usize = a.comps.iter().map(|c| c.bw * c.bh).sum();
    Ok(tags(M::new(changed > 0 && changed < total), c).inner(1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shift {
    case: Case,
    by: (u8, u8),
    v: (u8, u8),
}

fn shift_case() -> BoxedStrategy<Shift> {
    ((9..=120u16, 9..=120u16), gen::pattern(), gen::cfg(), gen::entry(), (any::<u8>(), any::<u8>()), (gen::vidx(), gen::vidx()))
        .prop_map(|((w, h), pat, cfg, entry, by, v)| Shift { case: Case { img: Image { w, h, pat }, cfg, entry }, by, v })
        .boxed()
}

/// Removes whole units at the left and top.
fn t_shift(ctx: &Ctx, s: &Shift) -> R {
    let c = &s.case;
    let (w, h, n) = (c.img.w as usize, c.img.h as usize, c.entry.nch());
    let f = rm::comp_factors(c.entry.jct(), c.cfg.factors());
    let (hm, vm) = rm::max_factors(&f);
    let (ux, uy) = ((w - 1) / (8 * hm), (h - 1) / (8 * vm));
    let (dx, dy) = (s.by.0 as usize % (ux + 1), s.by.1 as usize % (uy + 1));
    let (x0, y0) = (dx * 8 * hm, dy * 8 * vm);
    let px = c.pixels();
    let (w2, h2) = (w - x0, h - y0);
    let mut q = Vec::with_capacity(w2 * h2 * n);
    for y in y0..h {
        q.extend_from_slice(&px[(y * w + x0) * n..(y * w + w) * n]);
    }
    let mut c2 = c.clone();
    c2.img.w = w2 as u16;
    c2.img.h = h2 as u16;
    let (va, vb) = (ctx.v(s.v.0 as usize), ctx.v(s.v.1 as usize));
    let a = ctx.parsed(&ctx.encode_px(va, c, &px)?, va, c)?;
    let b = ctx.parsed(&ctx.encode_px(vb, &c2, &q)?, vb, &c2)?;
    for ci in 0..a.comps.len() {
        let (p, r) = (&a.comps[ci], &b.comps[ci]);
        let (ox, oy) = (dx * p.h, dy * p.v);
        if (r.bw + ox, r.bh + oy) != (p.bw, p.bh) {
            return Err(format!("component {ci} has {}x{} blocks, shifted {}x{}", p.bw, p.bh, r.bw, r.bh));
        }
        for y in 0..r.bh {
            for x in 0..r.bw {
                if r.block(x, y) != p.block(x + ox, y + oy) {
                    return Err(format!("component {ci}: block {},{} is not the block {x},{y} of the shifted picture", x + ox, y + oy));
                }
            }
        }
    }
    Ok(tags(M::new(dx + dy > 0 && nontrivial(&b)), c).inner(1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edge {
    case: Case,
    v: (u8, u8),
}

fn edge_case() -> BoxedStrategy<Edge> {
    (gen::case(70), (gen::vidx(), gen::vidx())).prop_map(|(case, v)| Edge { case, v }).boxed()
}
fn edge_big() -> BoxedStrategy<Edge> {
    (gen::case_big(), (gen::vidx(), gen::vidx())).prop_map(|(case, v)| Edge { case, v }).boxed()
}

fn extend(px: &[u8], w: usize, h: usize, n: usize, w2: usize, h2: usize) -> Vec<u8> {
    let mut q = Vec::with_capacity(w2 * h2 * n);
    for y in 0..h2 {
        let r = &px[y.min(h - 1) * w * n..][..w * n];
        q.extend_from_slice(r);
        for _ in w..w2 {
            q.extend_from_slice(&r[(w - 1) * n..]);
        }
    }
    q
}

fn t_edge(ctx: &Ctx, s: &Edge) -> R {
    let c = &s.case;
    let (w, h, n) = (c.img.w as usize, c.img.h as usize, c.entry.nch());
    let f = rm::comp_factors(c.entry.jct(), c.cfg.factors());
    let (hm, vm) = rm::max_factors(&f);
    let (va, vb) = (ctx.v(s.v.0 as usize), ctx.v(s.v.1 as usize));
    let px = c.pixels();
    let d = ctx.encode_px(va, c, &px)?;
    let a = ctx.parsed(&d, va, c)?;
    // one scan with all components codes whole MCUs, otherwise the unit is one block
    let il = a.scans.iter().any(|s| s.comps.len() > 1);
    let (ux, uy) = if il { (8 * hm, 8 * vm) } else { (8, 8) };
    let (w2, h2) = (w.div_ceil(ux) * ux, h.div_ceil(uy) * uy);
    if w2 > 65535 || h2 > 65535 {
        return Ok(M::new(false).tag("too wide to extend"));
    }
    let mut c2 = c.clone();
    c2.img.w = w2 as u16;
    c2.img.h = h2 as u16;
    let e = ctx.encode_px(vb, &c2, &extend(&px, w, h, n, w2, h2))?;
    let b = ctx.parsed(&e, vb, &c2)?;
    if a.scans.len() != b.scans.len() {
        return Err("different number of scans".into());
    }
    for (i, (x, y)) in a.scans.iter().zip(&b.scans).enumerate() {
        same_bytes(&d[x.range.0..x.range.1], &e[y.range.0..y.range.1], &format!("scan {i} of a {w}x{h} picture and its extension to {w2}x{h2}"))?;
    }
    Ok(tags(M::new((w2, h2) != (w, h) && nontrivial(&a)), c).inner(1))
}

pub fn c17() -> Vec<Probe> {
    vec![
        prop("local", "a rectangle of pixels is replaced; only blocks covering it may change; non-trivial: some but not all blocks change", 120_000, 3_000_000, local_case, t_local),
        prop("shift", "whole units are removed at the left and top; non-trivial: at least one unit removed and non-zero AC coefficients left", 60_000, 1_500_000, shift_case, t_shift),
        prop("edge", "a picture against its explicit extension by repeated last column and row; non-trivial: the size is not a multiple of the unit and AC coefficients are present", 100_000, 2_500_000, edge_case, t_edge),
        prop("edge_big", "as above on large images", 400, 10_000, edge_big, t_edge),
    ]
}

// ---------------------------------------------------------------- C20

fn dec_case(big: bool) -> BoxedStrategy<(Case, u8)> {
    let c = if big { gen::case_big() } else { gen::case(64) };
    (c, gen::builtin(), prop_oneof![Just(0u8), Just(8u8)], gen::vidx())
        .prop_map(|(mut c, entry, s, v)| {
            c.entry = entry;
            c.cfg.qt = Some(gen::ones());
            c.cfg.sampling = Some(s);
            (c, v)
        })
        .boxed()
}
fn dec_small() -> BoxedStrategy<(Case, u8)> {
    dec_case(false)
}
fn dec_big() -> BoxedStrategy<(Case, u8)> {
    dec_case(true)
}

/// Rounding 64 coefficients and the samples themselves gives an error with a standard deviation of about 0.45 levels
/// in a component; converting back multiplies that by up to 1.772 and adds the rounding of the conversion (0.95).
/// The tolerances are more than eight standard deviations.
const PLAIN: i32 = 5;
const CONVERTED: i32 = 9;

fn within(src: &[u8], got: &[u8], sn: usize, gn: usize, map: &[usize], inv: bool, tol: i32, who: &str) -> Result<i32, String> {
    let n = src.len() / sn;
    if got.len() < n * gn {
        return Err(format!("{who}: {} bytes decoded for {n} pixels", got.len()));
    }
    let mut worst = 0;
    for i in 0..n {
        for (k, m) in map.iter().enumerate() {
            let g = got[i * gn + k] as i32;
            let g = if inv { 255 - g } else { g };
            let s = src[i * sn + m] as i32;
            if (g - s).abs() > tol {
                return Err(format!("{who}: channel {m} of pixel {i} is {s}, decoded {g}"));
            }
            worst = worst.max((g - s).abs());
        }
    }
    Ok(worst)
}

fn t_decode(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let (w, h) = (c.img.w as usize, c.img.h as usize);
    let var = ctx.v(*v as usize);
    let px = c.pixels();
    let d = ctx.encode_px(var, c, &px)?;
    let Entry::Encode(ct) = c.entry else { return Err("unexpected entry".into()) };
    let n = CT_BPP[ct as usize];
    let rgb: &[usize] = if ct == 3 || ct == 4 { &[2, 1, 0] } else { &[0, 1, 2] };
    let mut m = M::new(w * h > 64).tag(class(c)).tag(CT_NAMES[ct as usize]);
    if let Some(l) = &ctx.libjpeg {
        if w <= 65500 && h <= 65500 {
            let (space, gn, map, inv, tol): (i32, usize, &[usize], bool, i32) = match ct {
                0 => (1, 1, &[0], false, PLAIN),
                1..=4 => (2, 3, rgb, false, CONVERTED),
                5 => (3, 3, &[0, 1, 2], false, PLAIN),
                6 => (4, 4, &[0, 1, 2, 3], true, PLAIN),
                7 => (4, 4, &[0, 1, 2, 3], true, CONVERTED),
                _ => (5, 4, &[0, 1, 2, 3], false, PLAIN),
            };
            let r = l.decode(&d, w, h, space)?;
            if r.warnings > 0 {
                return Err(format!("libjpeg warns: {}", r.msg));
            }
            let worst = within(&px, &r.px, n, gn, map, inv, tol, &format!("[{}] {} by libjpeg", var.name, CT_NAMES[ct as usize]))?;
            m = m.tag(format!("{} worst {worst} (libjpeg)", if tol == PLAIN { "plain" } else { "converted" }));
        }
    }
    let mut dec = jpeg_decoder::Decoder::new(&d[..]);
    let out = dec.decode().map_err(|e| format!("jpeg-decoder: {e}"))?;
    let who = format!("[{}] {} by jpeg-decoder", var.name, CT_NAMES[ct as usize]);
    let worst = match ct {
        0 => within(&px, &out, n, 1, &[0], false, PLAIN, &who)?,
        1..=4 => within(&px, &out, n, 3, rgb, false, CONVERTED, &who)?,
        5 => {
            // compare in RGB
            let want: Vec<u8> = px
                .chunks_exact(3)
                .flat_map(|p| {
                    let (y, cb, cr) = (p[0] as f64, p[1] as f64 - 128.0, p[2] as f64 - 128.0);
                    [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb].map(|v| v.round().clamp(0.0, 255.0) as u8)
                })
                .collect();
            within(&want, &out, 3, 3, &[0, 1, 2], false, CONVERTED, &who)?
        }
        6 => within(&px, &out, n, 4, &[0, 1, 2, 3], false, PLAIN, &who)?,
        7 => within(&px, &out, n, 4, &[0, 1, 2, 3], false, CONVERTED, &who)?,
        _ => 0,
    };
    Ok(m.tag(format!("jpeg-decoder worst {worst}")))
}

/// Pictures whose chroma is constant per subsampling cell lose nothing by decimation.
fn t_cells(ctx: &Ctx, (c, v): &(Case, u8)) -> R {
    let Some(l) = &ctx.libjpeg else { return Ok(M::new(false).tag("no libjpeg")) };
    let (w, h) = (c.img.w as usize, c.img.h as usize);
    let (hs, vs) = c.cfg.factors();
    let mut px = c.pixels();
    let Entry::Encode(ct) = c.entry else { return Err("unexpected entry".into()) };
    let (n, chans, space): (usize, &[usize], i32) = match ct {
        5 => (3, &[1, 2], 3),
        8 => (4, &[1, 2], 5),
        6 => (4, &[0, 1, 2], 4),
        _ => (1, &[], 1),
    };
    for y in 0..h {
        for x in 0..w {
            for k in chans {
                px[(y * w + x) * n + k] = px[((y / vs * vs) * w + x / hs * hs) * n + k];
            }
        }
    }
    let d = ctx.encode_px(ctx.v(*v as usize), c, &px)?;
    let r = l.decode(&d, w, h, space)?;
    if r.warnings > 0 {
        return Err(format!("libjpeg warns: {}", r.msg));
    }
    let all: Vec<usize> = (0..n).collect();
    within(&px, &r.px, n, n, &all, ct == 6, PLAIN, &format!("{} {hs}x{vs} by libjpeg", CT_NAMES[ct as usize]))?;
    Ok(M::new(w > hs && h > vs && hs * vs > 1).tag(format!("{hs}x{vs}")).tag(CT_NAMES[ct as usize]))
}

fn cell_case() -> BoxedStrategy<(Case, u8)> {
    (gen::case(64), prop_oneof![Just(5u8), Just(8), Just(6), Just(0)], 0..16u8, gen::vidx())
        .prop_map(|(mut c, ct, s, v)| {
            c.entry = Entry::Encode(ct);
            c.cfg.qt = Some(gen::ones());
            c.cfg.sampling = Some(s);
            (c, v)
        })
        .boxed()
}

pub fn c20() -> Vec<Probe> {
    vec![
        prop("decode", "all-ones tables, no subsampling, every pixel format and lossless option, decoded by libjpeg and jpeg-decoder, every channel of every pixel compared; non-trivial: more than 64 pixels", 120_000, 2_000_000, dec_small, t_decode),
        prop("decode_cells", "subsampled pictures whose chroma is constant per cell, decoded by libjpeg without smoothing; non-trivial: subsampled and larger than one cell", 90_000, 1_500_000, cell_case, t_cells),
        prop("decode_big", "large images", 600, 15_000, dec_big, t_decode),
        list("giant", GIANT_RULE, giants, t_giant),
    ]
}

// ---------------------------------------------------------------- pictures of several gigabytes

/// Zero memory that is only backed where it is written.
struct Sparse {
    p: *mut u8,
    n: usize,
}

impl Sparse {
    fn new(n: usize) -> Option<Sparse> {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
        }
        let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0) };
        (p as isize != -1).then_some(Sparse { p, n })
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}

impl Drop for Sparse {
    fn drop(&mut self) {
        extern "C" {
            fn munmap(a: *mut u8, n: usize) -> i32;
        }
        unsafe { munmap(self.p, self.n) };
    }
}

/// Entropy-coded data of every scan, split at the restart markers.
fn pieces(d: &[u8]) -> Result<Vec<Vec<&[u8]>>, String> {
    let mut out = vec![];
    let mut i = 2;
    loop {
        if d[i..].starts_with(&[0xFF, 0xD9]) {
            return Ok(out);
        }
        if i + 4 > d.len() || d[i] != 0xFF {
            return Err(format!("no marker at byte {i}"));
        }
        let m = d[i + 1];
        i += 2 + (d[i + 2] as usize * 256 + d[i + 3] as usize);
        if m == 0xDA {
            let mut scan = vec![];
            let mut from = i;
            loop {
                match d[i..].iter().position(|b| *b == 0xFF) {
                    Some(k) if i + k + 1 < d.len() => i += k,
                    _ => return Err("the last scan does not end".into()),
                }
                match d[i + 1] {
                    0 => i += 2,
                    0xD0..=0xD7 => {
                        scan.push(&d[from..i]);
                        i += 2;
                        from = i;
                    }
                    _ => break,
                }
            }
            scan.push(&d[from..i]);
            out.push(scan);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    w: u16,
    h: u16,
    ct: u8,
    cfg: Cfg,
    v: String,
    seed: u64,
}

/// A black picture with a few rows of noise far apart. A restart marker after every row of units makes the rows
/// independent, so each must be coded as in a picture that consists of this row alone.
fn t_giant(ctx: &Ctx, g: &Giant) -> R {
    let n = CT_BPP[g.ct as usize];
    let (w, h) = (g.w as usize, g.h as usize);
    let (hs, vs) = if g.ct == 0 { (1, 1) } else { g.cfg.factors() };
    let (mw, mh) = (8 * hs, 8 * vs);
    let rows = h.div_ceil(mh);
    let case = |h: usize| Case {
        img: Image { w: g.w, h: h as u16, pat: Pattern::Flat(0, 0, 0, 0) },
        cfg: Cfg { restart: w.div_ceil(mw) as u16, ..g.cfg.clone() },
        entry: Entry::Encode(g.ct),
    };
    let Some(mem) = Sparse::new(w * h * n) else { return Ok(M::new(false).tag("no memory")) };
    let px = mem.get();
    let line = w * n * mh;
    // unit rows around the powers of two of the input offset, of the sample offset and of the unit count
    let mut marked: Vec<usize> = vec![0, 1, rows - 1, rows / 2];
    for p in [1usize << 31, 1 << 32] {
        marked.extend([p / line, p / line + 1, p / (w * mh), p / (w * mh) + 1]);
    }
    for p in [1usize << 15, 1 << 16, 1 << 24, 1 << 25] {
        marked.extend([p / mh, p / w.div_ceil(mw)]);
    }
    marked.retain(|r| *r < rows);
    marked.sort();
    marked.dedup();
    for r in &marked {
        let (a, b) = (r * line, ((r + 1) * line).min(px.len()));
        let mut s = mix(g.seed ^ *r as u64);
        // noise in a part of the row
        let k = (b - a).min(4096 * n) / n * n;
        let o = a + (s as usize % ((b - a - k) / n + 1)) * n;
        for x in &mut px[o..o + k] {
            s = mix(s);
            *x = s as u8;
        }
    }
    let var = ctx.by_name(&g.v);
    let big = ctx.encode_px(var, &case(h), px)?;
    let big = pieces(&big)?;
    let black = ctx.encode_px(var, &case(mh), &vec![0; line])?;
    let black = pieces(&black)?;
    if big.len() != black.len() {
        return Err(format!("{} scans instead of {}", big.len(), black.len()));
    }
    let mut own = std::collections::HashMap::new();
    for r in &marked {
        let (a, b) = (r * line, ((r + 1) * line).min(px.len()));
        let d = ctx.encode_px(var, &case((b - a) / (w * n)), &px[a..b])?;
        own.insert(*r, pieces(&d)?.iter().map(|s| s[0].to_vec()).collect::<Vec<_>>());
    }
    for (s, scan) in big.iter().enumerate() {
        if scan.len() != rows {
            return Err(format!("scan {s}: {} pieces for {rows} rows of units", scan.len()));
        }
        for (r, p) in scan.iter().enumerate() {
            let want = own.get(&r).map(|v| &v[s][..]).unwrap_or(black[s][0]);
            if *p != want {
                return Err(format!("[{}] scan {s}, row {r} of {rows} rows of units: not the coded form of the samples of this row", g.v));
            }
        }
    }
    Ok(M::new(true).tag(format!("{} million pixels, {} MiB", w * h / 1_000_000, (w * h * n) >> 20)).inner(marked.len() as u64 + 1))
}

fn giants(ctx: &Ctx) -> Vec<Giant> {
    let cfg = |prog, sampling| Cfg {
        quality: 60,
        sampling: Some(sampling),
        qt: None,
        prog,
        restart: 0,
        opt: false,
        density: Dens::None,
        meta: vec![],
    };
    let g = |w, h, ct, cfg, v: &str| Giant { w, h, ct, cfg, v: v.into(), seed: mix(ctx.seed ^ (w as u64) << 20 ^ h as u64) };
    let mut v = vec![
        // more than 4 GiB of input
        g(65528, 16400, 2, cfg(Prog::Off, 3), "simd-release"),
        g(65500, 16408, 6, cfg(Prog::Off, 3), "scalar-release"),
        // more than 2 GiB of buffered samples
        g(65528, 32784, 0, cfg(Prog::Scans(2), 0), "scalar-release"),
        g(65535, 65535, 0, cfg(Prog::Off, 0), "simd-release"),
    ];
    if ctx.thorough {
        v.extend([
            g(65535, 65535, 2, cfg(Prog::Off, 3), "simd-release"),
            g(65535, 65535, 0, cfg(Prog::Off, 0), "nostd-release"),
            g(65535, 65535, 8, cfg(Prog::Off, 3), "scalar-release"),
            g(65500, 16408, 4, cfg(Prog::Off, 0), "scalar-checked"),
            g(65528, 16400, 1, cfg(Prog::Off, 2), "nostd-release"),
            g(65528, 32784, 5, cfg(Prog::Off, 1), "simd-checked"),
        ]);
    }
    v
}

const GIANT_RULE: &str = "black pictures of up to 65535x65535 pixels (beyond 2 and 4 GiB of input) with rows of noise at the start, the end and around 2^31 and 2^32 bytes; every row of units must be coded as in a picture of that row alone";

// ---------------------------------------------------------------- C21

fn factor_rows(_: &Ctx) -> Vec<u16> {
    (0..256).collect()
}

fn t_factors(ctx: &Ctx, h: &u16) -> R {
    for var in &ctx.variants {
        for v in 0..=255u8 {
            let h = *h as u8;
            let want = SAMPLING[..8].iter().position(|s| (s.1, s.2) == (h, v)).map(|i| i as i32).unwrap_or(-1);
            let got = var.from_factors(h, v);
            if got != want {
                return Err(format!("[{}] factors {h}x{v} give {got}, expected {want} (index of the sampling factor, -1 for none)", var.name));
            }
        }
    }
    Ok(M::new([1, 2, 4].contains(h)).inner(255))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Samp {
    case: Case,
    other: u8,
    v: (u8, u8),
}

fn samp_case() -> BoxedStrategy<Samp> {
    (gen::case(90), 0..16u8, 0..16u8, prop_oneof![3 => Just(true), 1 => Just(false)], (gen::vidx(), gen::vidx()))
        .prop_map(|(mut case, s, other, ones, v)| {
            case.cfg.sampling = Some(s);
            if ones {
                case.cfg.qt = Some(gen::ones());
            }
            Samp { case, other, v }
        })
        .boxed()
}

fn check_declared(c: &Case, j: &Jpeg) -> Result<(), String> {
    let want = rm::comp_factors(c.entry.jct(), c.cfg.factors());
    for (ci, f) in want.iter().enumerate() {
        if (j.comps[ci].h, j.comps[ci].v) != *f {
            return Err(format!("component {ci} declares {}x{} instead of {}x{}", j.comps[ci].h, j.comps[ci].v, f.0, f.1));
        }
    }
    for s in &j.scans {
        if s.comps.len() > 1 {
            let blocks: usize = s.comps.iter().map(|c| j.comps[*c].h * j.comps[*c].v).sum();
            if blocks > 10 || s.comps.len() > 4 {
                return Err(format!("{blocks} blocks per unit are interleaved"));
            }
        }
    }
    Ok(())
}

fn t_sampling(ctx: &Ctx, s: &Samp) -> R {
    let c = &s.case;
    let (va, vb) = (ctx.v(s.v.0 as usize), ctx.v(s.v.1 as usize));
    let px = c.pixels();
    let (w, h) = (c.img.w as usize, c.img.h as usize);
    let d = ctx.encode_px(va, c, &px)?;
    let j = ctx.parsed(&d, va, c)?;
    check_declared(c, &j)?;
    // alias
    let i = c.cfg.sampling.unwrap();
    let alias: Vec<u8> = (0..16u8).filter(|a| *a != i && rm::hv(*a) == rm::hv(i)).collect();
    for a in &alias {
        let mut c2 = c.clone();
        c2.cfg.sampling = Some(*a);
        same_bytes(&d, &ctx.encode_px(vb, &c2, &px)?, &format!("{} and {}", SAMPLING[i as usize].0, SAMPLING[*a as usize].0))?;
    }
    // the right sample is taken
    let cv = |p: &[u8]| conv(ctx, p);
    rm::check_fidelity(c, &px, &j, &cv).map_err(|e| format!("[{}] {e}", va.name))?;
    // full resolution components do not depend on the choice
    let mut c3 = c.clone();
    c3.cfg.sampling = Some(s.other);
    let k = ctx.parsed(&ctx.encode_px(vb, &c3, &px)?, vb, &c3)?;
    check_declared(&c3, &k)?;
    let full = |j: &Jpeg, ci: usize| {
        let m = (j.comps.iter().map(|c| c.h).max().unwrap(), j.comps.iter().map(|c| c.v).max().unwrap());
        (j.comps[ci].h, j.comps[ci].v) == m
    };
    for ci in 0..j.comps.len() {
        if full(&j, ci) && full(&k, ci) && real_blocks(&j, ci) != real_blocks(&k, ci) {
            return Err(format!("full resolution component {ci} changes with the sampling factor"));
        }
    }
    // samples that are not kept have no influence
    let (hs, vs) = c.cfg.factors();
    let sub = |ci: usize| !full(&j, ci);
    let direct: Option<Vec<usize>> = match c.entry {
        Entry::Encode(5) | Entry::Custom { jct: 1, .. } => Some(vec![1, 2]),
        Entry::Encode(6) | Entry::Custom { jct: 2, .. } => Some(vec![0, 1, 2]),
        Entry::Encode(8) | Entry::Custom { jct: 3, .. } => Some(vec![1, 2]),
        _ => None,
    };
    let mut dropped = 0;
    if let Some(ch) = direct {
        let n = c.entry.nch();
        let mut q = px.clone();
        for y in 0..h {
            for x in 0..w {
                // the last column and row also fill the padding
                let kept = (x % hs == 0 && y % vs == 0) || x == w - 1 || y == h - 1;
                if !kept {
                    for k in &ch {
                        if sub(*k) {
                            let o = (y * w + x) * n + k;
                            q[o] = q[o].wrapping_add(1 + (mix(o as u64) % 255) as u8);
                            dropped += 1;
                        }
                    }
                }
            }
        }
        if dropped > 0 {
            same_bytes(&d, &ctx.encode_px(vb, c, &q)?, "changed samples that decimation drops")?;
        }
    }
    Ok(tags(M::new(hs * vs > 1 && nontrivial(&j)), c)
        .inner(2 + alias.len() as u64)
        .tag(SAMPLING[i as usize].0)
        .tag(if dropped > 0 { "dropped samples changed" } else { "no dropped samples" }))
}

pub fn c21() -> Vec<Probe> {
    vec![
        list("factors", "all 65536 factor pairs in every build (exhaustive); one evaluation per horizontal factor, non-trivial: that factor occurs in a supported pair", factor_rows, t_factors),
        prop("sampling", "all 16 settings with their alias, a second setting, and changed dropped samples, in two builds; non-trivial: subsampled, with non-zero AC coefficients", 100_000, 2_500_000, samp_case, t_sampling),
    ]
}

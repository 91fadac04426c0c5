//! Reference models written from the specifications, in plain floating point or integer arithmetic.
use crate::case::{Case, Cfg, Entry, QT, SAMPLING};
use crate::jpeg::Jpeg;
use crate::tables;

/// One plane of samples per component at full resolution.
pub type Planes = Vec<Vec<u8>>;

/// JFIF (BT.601 full range) conversion, exact.
pub fn ycc_exact(r: u8, g: u8, b: u8) -> [f64; 3] {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    let y = 0.299 * r + 0.587 * g + 0.114 * b;
    [y, (b - y) / 1.772 + 128.0, (r - y) / 1.402 + 128.0]
}

/// Full resolution component planes of the picture. `conv` converts one RGB triple.
pub fn planes(entry: &Entry, px: &[u8], n: usize, conv: &dyn Fn(&[u8]) -> Vec<u8>) -> Planes {
    // order of the colour channels in each format
    let split = |nch: usize, order: &[usize]| -> Planes {
        order.iter().map(|&o| (0..n).map(|i| px[i * nch + o]).collect()).collect()
    };
    let ycc = |nch: usize, order: [usize; 3]| -> Planes {
        let mut rgb = Vec::with_capacity(n * 3);
        for i in 0..n {
            for o in order {
                rgb.push(px[i * nch + o]);
            }
        }
        let c = conv(&rgb);
        (0..3).map(|k| (0..n).map(|i| c[i * 3 + k]).collect()).collect()
    };
    match entry {
        Entry::Custom { jct, .. } => match jct {
            0 => split(1, &[0]),
            1 => split(3, &[0, 1, 2]),
            _ => split(4, &[0, 1, 2, 3]),
        },
        Entry::Encode(ct) => match ct {
            0 => split(1, &[0]),
            1 => ycc(3, [0, 1, 2]),
            2 => ycc(4, [0, 1, 2]),
            3 => ycc(3, [2, 1, 0]),
            4 => ycc(4, [2, 1, 0]),
            5 => split(3, &[0, 1, 2]),
            6 => {
                let mut p = split(4, &[0, 1, 2, 3]);
                for c in &mut p {
                    for s in c.iter_mut() {
                        *s = 255 - *s;
                    }
                }
                p
            }
            7 => {
                let mut p = ycc(4, [0, 1, 2]);
                p.push((0..n).map(|i| 255 - px[i * 4 + 3]).collect());
                p
            }
            _ => split(4, &[0, 1, 2, 3]),
        },
    }
}

/// Declared sampling factors per component.
pub fn comp_factors(jct: u8, hv: (usize, usize)) -> Vec<(usize, usize)> {
    match jct {
        0 => vec![(1, 1)],
        1 => vec![hv, (1, 1), (1, 1)],
        2 => vec![(1, 1), (1, 1), (1, 1), hv],
        _ => vec![hv, (1, 1), (1, 1), hv],
    }
}

/// Which of the two quantization tables each component uses (0 luma, 1 chroma).
pub fn comp_qsel(jct: u8) -> &'static [usize] {
    match jct {
        0 => &[0],
        1 => &[0, 1, 1],
        2 => &[1, 1, 1, 0],
        _ => &[0, 1, 1, 0],
    }
}

/// Sample of the (decimated, edge replicated) component at (x, y).
#[inline]
pub fn sample(plane: &[u8], w: usize, h: usize, hs: usize, vs: usize, x: usize, y: usize) -> u8 {
    plane[(y * vs).min(h - 1) * w + (x * hs).min(w - 1)]
}

/// Exact forward DCT (A.3.3) of level shifted samples.
pub struct Dct {
    c: [[f64; 8]; 8],
}

impl Default for Dct {
    fn default() -> Self {
        Self::new()
    }
}

impl Dct {
    pub fn new() -> Dct {
        let mut c = [[0.0; 8]; 8];
        for (u, r) in c.iter_mut().enumerate() {
            let k = if u == 0 { (0.5f64).sqrt() } else { 1.0 } / 2.0;
            for (x, v) in r.iter_mut().enumerate() {
                *v = k * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        Dct { c }
    }
    pub fn forward(&self, s: &[f64; 64]) -> [f64; 64] {
        let mut t = [0.0; 64];
        for y in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for x in 0..8 {
                    a += self.c[u][x] * s[y * 8 + x];
                }
                t[y * 8 + u] = a;
            }
        }
        let mut o = [0.0; 64];
        for u in 0..8 {
            for v in 0..8 {
                let mut a = 0.0;
                for y in 0..8 {
                    a += self.c[v][y] * t[y * 8 + u];
                }
                o[v * 8 + u] = a;
            }
        }
        o
    }
}

pub fn max_factors(f: &[(usize, usize)]) -> (usize, usize) {
    (f.iter().map(|x| x.0).max().unwrap(), f.iter().map(|x| x.1).max().unwrap())
}

/// Largest |coef*Q - exact| relative to its allowance; error text if any exceeds it.
pub fn check_fidelity(case: &Case, px: &[u8], j: &Jpeg, conv: &dyn Fn(&[u8]) -> Vec<u8>) -> Result<f64, String> {
    let (w, h) = (case.img.w as usize, case.img.h as usize);
    let jct = case.entry.jct();
    let pl = planes(&case.entry, px, w * h, conv);
    let f = comp_factors(jct, case.cfg.factors());
    if j.comps.len() != pl.len() {
        return Err(format!("{} components instead of {}", j.comps.len(), pl.len()));
    }
    let (hm, vm) = max_factors(&f);
    let dct = Dct::new();
    let mut worst = 0.0f64;
    for (ci, c) in j.comps.iter().enumerate() {
        let (hs, vs) = (hm / f[ci].0, vm / f[ci].1);
        let q = j.q(ci);
        let (bw, bh) = if c.padded { (c.pw, c.ph) } else { (c.bw, c.bh) };
        for by in 0..bh {
            for bx in 0..bw {
                let mut s = [0.0; 64];
                for y in 0..8 {
                    for x in 0..8 {
                        s[y * 8 + x] = sample(&pl[ci], w, h, hs, vs, bx * 8 + x, by * 8 + y) as f64 - 128.0;
                    }
                }
                let e = dct.forward(&s);
                let b = c.block(bx, by);
                for k in 0..64 {
                    let got = b[k] as f64 * q[k] as f64;
                    // half a step; the integer DCT's rounding; the rounded 15-bit reciprocal, which is
                    // applied to the value plus half a step: 2^-13 of that, in steps
                    let (qk, ek) = (q[k] as f64, e[k].abs());
                    // the sum of a block is computed exactly
                    let dct = if k == 0 { 1e-9 } else { 0.5 };
                    let allow = 0.5 * qk + dct + 1.25e-4 * (ek + qk / 2.0) * qk;
                    let d = (got - e[k]).abs();
                    if d >= allow {
                        return Err(format!(
                            "component {ci} block {bx},{by} coefficient {k}: stored {}*{} = {got}, exact DCT {:.3}, difference {d:.3} > {allow:.3}",
                            b[k], q[k], e[k]
                        ));
                    }
                    worst = worst.max(d / allow);
                }
            }
        }
    }
    Ok(worst)
}

/// The table a stream must carry (natural order).
pub fn qtable(t: &QT, quality: u8, luma: bool) -> [u16; 64] {
    let mut o = [0u16; 64];
    match t {
        QT::Custom(v) => {
            for i in 0..64 {
                o[i] = v[i].clamp(1, 255);
            }
        }
        QT::Preset(p) => {
            let base = if luma { &tables::LUMA[*p as usize] } else { &tables::CHROMA[*p as usize] };
            let q = (quality as i64).clamp(1, 100);
            let s = if q < 50 { 5000 / q } else { 200 - 2 * q };
            for i in 0..64 {
                o[i] = ((base[i] as i64 * s + 50) / 100).clamp(1, 255) as u16;
            }
        }
    }
    o
}

pub fn qtables(cfg: &Cfg) -> [[u16; 64]; 2] {
    let (a, b) = cfg.qtypes();
    [qtable(&a, cfg.quality, true), qtable(&b, cfg.quality, false)]
}

/// Code lengths by the procedure of T.81 K.2 (figures K.1 to K.4) for symbol frequencies, with one code point
/// reserved. Returns (length per symbol, longest tree path before limiting).
pub fn k2_lengths(hist: &[u64]) -> (Vec<u8>, usize) {
    let n = hist.len();
    let mut freq: Vec<u64> = hist.to_vec();
    freq.push(1);
    let mut size = vec![0usize; n + 1];
    let mut group: Vec<Vec<usize>> = (0..=n).map(|i| vec![i]).collect();
    loop {
        let mut v1 = usize::MAX;
        for i in 0..=n {
            if freq[i] > 0 && (v1 == usize::MAX || freq[i] <= freq[v1]) {
                v1 = i;
            }
        }
        let mut v2 = usize::MAX;
        for i in 0..=n {
            if freq[i] > 0 && i != v1 && (v2 == usize::MAX || freq[i] <= freq[v2]) {
                v2 = i;
            }
        }
        if v2 == usize::MAX {
            break;
        }
        freq[v1] += freq[v2];
        freq[v2] = 0;
        let g = std::mem::take(&mut group[v2]);
        group[v1].extend(g);
        for &m in &group[v1] {
            size[m] += 1;
        }
    }
    let deep = *size.iter().max().unwrap();
    let mut bits = vec![0i64; deep.max(16) + 2];
    for &s in &size {
        if s > 0 {
            bits[s] += 1;
        }
    }
    let mut i = bits.len() - 1;
    while i > 16 {
        while bits[i] > 0 {
            let mut jx = i - 2;
            while bits[jx] == 0 {
                jx -= 1;
            }
            bits[i] -= 2;
            bits[i - 1] += 1;
            bits[jx + 1] += 2;
            bits[jx] -= 1;
        }
        i -= 1;
    }
    while bits[i] == 0 {
        i -= 1;
    }
    bits[i] -= 1;
    let mut order: Vec<usize> = (0..n).filter(|s| size[*s] > 0).collect();
    order.sort_by_key(|s| (size[*s], *s));
    let mut out = vec![0u8; n];
    let mut k = 0;
    for (l, b) in bits.iter().enumerate() {
        for _ in 0..*b {
            out[order[k]] = l as u8;
            k += 1;
        }
    }
    (out, deep)
}

/// Code lengths of the typical tables of K.3, by (class, luma).
pub fn default_len(class: u8, id: u8, sym: u8) -> u8 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<[u8; 256]>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let dcl: [u8; 16] = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0];
        let dcc: [u8; 16] = [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0];
        let acl: [u8; 16] = [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d];
        let acc: [u8; 16] = [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77];
        let dcv: Vec<u8> = (0..12).collect();
        // symbols of up to 12 (luma) bits in code order; all others have 16 (15) bits
        let lead_l: [u8; 37] = [
            0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71,
            0x14, 0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72,
            0x82,
        ];
        let lead_c: [u8; 43] = [
            0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22,
            0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15, 0x62, 0x72, 0xD1,
            0x0A, 0x16, 0x24, 0x34, 0xE1, 0x25, 0xF1,
        ];
        let all: Vec<u8> = (0..=255u8)
            .filter(|s| *s == 0 || *s == 0xF0 || (1..=10).contains(&(s & 15)))
            .collect();
        let rest = |lead: &[u8]| -> Vec<u8> {
            let mut v = lead.to_vec();
            v.extend(all.iter().filter(|s| !lead.contains(s)));
            v
        };
        let mk = |bits: &[u8; 16], vals: &[u8]| {
            let mut o = [0u8; 256];
            let mut k = 0;
            for (l, b) in bits.iter().enumerate() {
                for _ in 0..*b {
                    o[vals[k] as usize] = l as u8 + 1;
                    k += 1;
                }
            }
            assert_eq!(k, vals.len());
            o
        };
        vec![mk(&dcl, &dcv), mk(&dcc, &dcv), mk(&acl, &rest(&lead_l)), mk(&acc, &rest(&lead_c))]
    });
    t[(class as usize) * 2 + (id as usize)][sym as usize]
}

/// (h, v) of a sampling index
pub fn hv(s: u8) -> (usize, usize) {
    (SAMPLING[s as usize].1 as usize, SAMPLING[s as usize].2 as usize)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn dct_dc() {
        let d = Dct::new();
        let o = d.forward(&[100.0; 64]);
        assert!((o[0] - 800.0).abs() < 1e-9 && o[1].abs() < 1e-9);
    }
    #[test]
    fn k2_two() {
        let mut h = vec![0; 256];
        h[3] = 10;
        let (l, _) = k2_lengths(&h);
        assert_eq!(l[3], 1);
        assert_eq!(default_len(1, 0, 0xFA), 16);
        assert_eq!(default_len(1, 1, 0), 2);
    }
}

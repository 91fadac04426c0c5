//! Generators.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use vcore::case::*;

/// Integer literals of the crate's sources, and products and shifts of neighbouring ones: thresholds the code may
/// compare against. As with a fuzzer's dictionary this only steers the inputs, never a verdict.
pub fn dict() -> &'static [u32] {
    static D: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("JE_REPO").unwrap_or_else(|_| "/repo".into());
        let mut v: Vec<u64> = (8..17).map(|k| 1 << k).collect();
        for d in ["src", "src/avx2"] {
            for e in std::fs::read_dir(format!("{root}/{d}")).into_iter().flatten().flatten() {
                let text = std::fs::read_to_string(e.path()).unwrap_or_default();
                for l in text.lines() {
                    literals(l.split("//").next().unwrap_or(""), &mut v);
                }
            }
        }
        let mut v: Vec<u32> = v.into_iter().filter(|x| (17..=1 << 24).contains(x)).map(|x| x as u32).collect();
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn literals(line: &str, out: &mut Vec<u64>) {
    let b = line.as_bytes();
    let (mut i, mut last): (usize, Option<(u64, usize)>) = (0, None);
    while i < b.len() {
        if !b[i].is_ascii_digit() || (i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.')) {
            i += 1;
            continue;
        }
        let st = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        let t: String = line[st..i].chars().filter(|c| *c != '_').collect();
        let t = t.split(['u', 'i']).next().unwrap_or("");
        let v = match t.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16),
            None => t.parse(),
        };
        let Ok(v) = v else { continue };
        out.push(v);
        if let Some((w, end)) = last {
            match line[end..st].trim() {
                "*" => out.push(w.saturating_mul(v)),
                "<<" if v < 32 && w < 1 << 20 => out.push(w << v),
                "-" => out.push(w.saturating_sub(v)),
                "+" => out.push(w.saturating_add(v)),
                _ => {}
            }
        }
        last = Some((v, i));
    }
}

/// A value of the dictionary in lo..=hi, or next to one, possibly scaled from blocks to pixels.
pub fn near(lo: u32, hi: u32) -> BoxedStrategy<u32> {
    let mut v: Vec<u32> = dict().iter().flat_map(|x| [*x, x.saturating_mul(8), x.saturating_mul(16)]).filter(|x| (lo..=hi).contains(x)).collect();
    v.sort_unstable();
    v.dedup();
    if v.is_empty() {
        return (lo..=hi).boxed();
    }
    (prop::sample::select(v), -1i64..=1).prop_map(move |(x, d)| (x as i64 + d).clamp(lo as i64, hi as i64) as u32).boxed()
}

/// any 16 bit value; weight on small ones and on thresholds
pub fn word() -> BoxedStrategy<u16> {
    prop_oneof![3 => any::<u16>(), 2 => 0..=3u16, 1 => 4..=400u16, 1 => Just(65535u16), 2 => near(17, 65535).prop_map(|x| x as u16)].boxed()
}

pub fn seed() -> BoxedStrategy<u64> {
    any::<u64>().boxed()
}

pub fn pattern() -> BoxedStrategy<Pattern> {
    prop_oneof![
        1 => any::<(u8, u8, u8, u8)>().prop_map(|(a, b, c, d)| Pattern::Flat(a, b, c, d)),
        4 => seed().prop_map(Pattern::Noise),
        3 => seed().prop_map(Pattern::Extremes),
        2 => seed().prop_map(Pattern::Gradient),
        2 => seed().prop_map(Pattern::Checker),
        2 => seed().prop_map(Pattern::BlockFlat),
        3 => seed().prop_map(Pattern::Basis),
        2 => seed().prop_map(Pattern::Sparse),
        2 => seed().prop_map(Pattern::Smooth),
        3 => seed().prop_map(Pattern::Mixed),
        1 => vec(any::<u8>(), 1..40).prop_map(Pattern::Raw),
    ]
    .boxed()
}

/// mostly small; weight near multiples of 8 and on thin images
pub fn dims(max: u16) -> BoxedStrategy<(u16, u16)> {
    let near8 = (1u16..=(max / 8).max(1), -1i32..=1).prop_map(move |(k, d)| (k as i32 * 8 + d).clamp(1, max as i32) as u16);
    let one = prop_oneof![4 => 1..=max.min(24), 3 => 1..=max, 3 => near8].boxed();
    // dictionary values, as long as the picture stays small
    let top = if max < 24 { max as u32 } else { (max as u32 * max as u32 / 4).clamp(max as u32, 2600) };
    let long = near(1, top).prop_map(|x| x as u16).boxed();
    prop_oneof![
        12 => (one.clone(), one.clone()),
        1 => (1..=3u16, 1..=max.saturating_mul(4)),
        1 => (1..=max.saturating_mul(4), 1..=3u16),
        1 => (long.clone(), 1..=9u16),
        1 => (1..=9u16, long),
    ]
    .boxed()
}

pub fn image(max: u16) -> BoxedStrategy<Image> {
    (dims(max), pattern()).prop_map(|((w, h), pat)| Image { w, h, pat }).boxed()
}

pub fn quality() -> BoxedStrategy<u8> {
    prop_oneof![6 => 1..=100u8, 2 => 85..=100u8, 1 => Just(100u8), 1 => any::<u8>()].boxed()
}

/// A custom table that holds what a preset holds: its base or scaled entries, exactly or nearly.
pub fn known_q() -> BoxedStrategy<QT> {
    (0..9u8, any::<bool>(), prop_oneof![2 => Just(50u8), 1 => 1..=100u8], prop_oneof![3 => Just(64usize), 1 => 0..64usize], word())
        .prop_map(|(p, luma, q, k, w)| {
            let mut t = vcore::refmodel::qtable(&QT::Preset(p), q, luma).to_vec();
            if k < 64 {
                t[k] = w;
            }
            QT::Custom(t)
        })
        .boxed()
}

pub fn custom_q() -> BoxedStrategy<QT> {
    prop_oneof![
        2 => known_q(),
        3 => Just(QT::Custom(vec![1; 64])),
        2 => (1u16..=8).prop_map(|q| QT::Custom(vec![q; 64])),
        3 => vec(1u16..=255, 64).prop_map(QT::Custom),
        2 => vec(1u16..=16, 64).prop_map(QT::Custom),
        2 => vec(prop_oneof![4 => 1u16..=40, 1 => Just(0u16), 1 => Just(255u16), 1 => Just(256u16), 1 => word()], 64)
            .prop_map(QT::Custom),
    ]
    .boxed()
}

pub fn preset_q() -> BoxedStrategy<QT> {
    (0..9u8).prop_map(QT::Preset).boxed()
}

pub fn qt() -> BoxedStrategy<Option<(QT, QT)>> {
    let one = prop_oneof![1 => preset_q(), 1 => custom_q()].boxed();
    prop_oneof![3 => Just(None), 3 => (one.clone(), one).prop_map(Some)].boxed()
}

pub fn sampling() -> BoxedStrategy<Option<u8>> {
    prop_oneof![1 => Just(None), 5 => (0..16u8).prop_map(Some)].boxed()
}

pub fn prog() -> BoxedStrategy<Prog> {
    prop_oneof![5 => Just(Prog::Off), 1 => Just(Prog::On), 4 => (2..=64u8).prop_map(Prog::Scans)].boxed()
}

pub fn restart() -> BoxedStrategy<u16> {
    prop_oneof![5 => Just(0u16), 4 => 1..=12u16, 2 => 13..=300u16, 1 => 1..=65535u16, 1 => near(17, 65535).prop_map(|x| x as u16)].boxed()
}

pub fn density() -> BoxedStrategy<Dens> {
    prop_oneof![
        3 => Just(Dens::None),
        1 => (word(), word()).prop_map(|(a, b)| Dens::Inch(a, b)),
        1 => (word(), word()).prop_map(|(a, b)| Dens::Cm(a, b)),
    ]
    .boxed()
}

pub fn blob(max: usize) -> BoxedStrategy<Blob> {
    prop_oneof![
        vec(any::<u8>(), 0..=max.min(24)).prop_map(Blob::Raw),
        (0..=max, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        (near(0, max as u32), any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len: len as usize, seed }),
    ]
    .boxed()
}

/// small accepted metadata calls
pub fn meta() -> BoxedStrategy<Vec<Op>> {
    let one = prop_oneof![
        3 => (1..=15u8, blob(60)).prop_map(|(nr, data)| Op::App { nr, data }),
        1 => blob(90).prop_map(Op::Icc),
    ];
    prop_oneof![4 => Just(vec![]), 1 => vec(one, 1..4)].boxed()
}

pub fn cfg() -> BoxedStrategy<Cfg> {
    (quality(), sampling(), qt(), prog(), restart(), any::<bool>(), density(), meta())
        .prop_map(|(quality, sampling, qt, prog, restart, opt, density, meta)| Cfg {
            quality,
            sampling,
            qt,
            prog,
            restart,
            opt,
            density,
            meta,
        })
        .boxed()
}

pub fn builtin() -> BoxedStrategy<Entry> {
    prop_oneof![2 => Just(Entry::Encode(0)), 9 => (0..9u8).prop_map(Entry::Encode)].boxed()
}

pub fn entry() -> BoxedStrategy<Entry> {
    prop_oneof![
        5 => builtin(),
        1 => (0..4u8, prop_oneof![Just(BufMode::Normal), Just(BufMode::PushUnused), any::<u64>().prop_map(BufMode::UnusedSome), Just(BufMode::Realloc)])
            .prop_map(|(jct, mode)| Entry::Custom { jct, mode }),
    ]
    .boxed()
}

pub fn case(max: u16) -> BoxedStrategy<Case> {
    (image(max), cfg(), entry()).prop_map(|(img, cfg, entry)| Case { img, cfg, entry }).boxed()
}

pub fn vidx() -> BoxedStrategy<u8> {
    (0..60u8).boxed()
}

/// long or large images: thousands of units, sides up to the format's limit
pub fn image_big() -> BoxedStrategy<Image> {
    let side = prop_oneof![3 => 1025..=9000u16, 2 => 9000..=65535u16, 1 => Just(65535u16), 1 => Just(65500u16), 2 => near(257, 65535).prop_map(|x| x as u16)].boxed();
    let d = prop_oneof![
        3 => (side.clone(), 1..=17u16),
        3 => (1..=17u16, side),
        3 => (150..=700u16, 150..=700u16),
        2 => (257..=2100u16, 16..=80u16),
        2 => (16..=80u16, 257..=2100u16),
    ];
    (d, pattern()).prop_map(|((w, h), pat)| Image { w, h, pat }).boxed()
}

/// more than 65536 blocks in the first component at least, as a square, a band or a column
pub fn image_huge() -> BoxedStrategy<Image> {
    let pat = prop_oneof![
        3 => any::<(u8, u8, u8, u8)>().prop_map(|(a, b, c, d)| Pattern::Flat(a, b, c, d)),
        2 => seed().prop_map(Pattern::Gradient),
        2 => seed().prop_map(Pattern::BlockFlat),
        2 => seed().prop_map(Pattern::Sparse),
        1 => seed().prop_map(Pattern::Noise),
    ];
    ((8193..=17000u32), prop_oneof![Just(0u32), 1..=9u32, 100..=255u32, Just(255u32)], any::<bool>(), 0..8u16, 0..8u16, pat)
        .prop_map(|(blocks8, shape, turn, dw, dh, pat)| {
            // 8 x blocks8 blocks; shape 0 is a square
            let n = blocks8 * 8;
            let short = if shape == 0 { (n as f64).sqrt() as u32 } else { shape.max(n.div_ceil(8191)) };
            let long = n.div_ceil(short).min(8191);
            let (a, b) = ((long * 8) as u16 - dw, (short * 8) as u16 - dh);
            let (w, h) = if turn { (b, a) } else { (a, b) };
            Image { w, h, pat }
        })
        .boxed()
}

pub fn restart_big() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => Just(0u16),
        3 => 1..=40u16,
        3 => 41..=1100u16,
        2 => prop_oneof![Just(255u16), Just(256), Just(257), Just(511), Just(512), Just(4095), Just(4096), Just(8191), Just(8192)],
        1 => 1..=65535u16,
        2 => near(17, 65535).prop_map(|x| x as u16),
    ]
    .boxed()
}

pub fn case_big() -> BoxedStrategy<Case> {
    let big = (image_big(), cfg(), restart_big(), entry()).prop_map(|(img, mut cfg, restart, entry)| {
        cfg.restart = restart;
        Case { img, cfg, entry }
    });
    prop_oneof![24 => big, 1 => case_huge()].boxed()
}

pub fn case_huge() -> BoxedStrategy<Case> {
    let restart = prop_oneof![
        2 => Just(0u16),
        3 => 1..=3u16,
        2 => 4..=40u16,
        2 => 41..=8000u16,
        1 => 8000..=65535u16,
        1 => near(17, 65535).prop_map(|x| x as u16),
    ];
    (image_huge(), cfg(), restart, entry())
        .prop_map(|(img, mut cfg, restart, entry)| {
            cfg.restart = restart;
            Case { img, cfg, entry }
        })
        .boxed()
}

pub fn ones() -> (QT, QT) {
    (QT::Custom(vec![1; 64]), QT::Custom(vec![1; 64]))
}

/// setter calls, including ones that must be refused
pub fn any_op() -> BoxedStrategy<Op> {
    let nr = prop_oneof![6 => 1..=15u8, 1 => Just(0u8), 1 => 16..=17u8, 1 => any::<u8>()];
    let scans = prop_oneof![6 => 2..=64u8, 1 => 0..=1u8, 1 => 65..=66u8, 1 => any::<u8>()];
    let q = prop_oneof![preset_q(), custom_q()].boxed();
    prop_oneof![
        2 => density().prop_map(Op::Density),
        3 => (0..16u8).prop_map(Op::Sampling),
        2 => (q.clone(), q).prop_map(|(a, b)| Op::QTables(a, b)),
        2 => any::<bool>().prop_map(Op::Progressive),
        3 => scans.prop_map(Op::Scans),
        3 => restart().prop_map(Op::Restart),
        3 => any::<bool>().prop_map(Op::Optimized),
        3 => (nr, blob(60)).prop_map(|(nr, data)| Op::App { nr, data }),
        1 => blob(90).prop_map(Op::Icc),
    ]
    .boxed()
}

/// writers of all kinds with all kinds of faults
pub fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        2 => Just(Fault::None),
        2 => (0..400u64, 0..8u8, 0..4u32).prop_map(|(n, kind, partial)| Fault::AtCall { n, kind, partial }),
        2 => (0..3000u64, 0..8u8).prop_map(|(n, kind)| Fault::AtByte { n, kind }),
        1 => (0..400u64, 0..8u8).prop_map(|(n, kind)| Fault::OnceAtCall { n, kind }),
    ]
    .boxed()
}

pub fn buf_mode_any() -> BoxedStrategy<BufMode> {
    prop_oneof![
        2 => Just(BufMode::Normal),
        2 => Just(BufMode::PushUnused),
        2 => any::<u64>().prop_map(BufMode::UnusedSome),
        3 => (1..=20u16).prop_map(BufMode::Short),
        1 => any::<u16>().prop_map(BufMode::Short),
        2 => (1..=20u16).prop_map(BufMode::Long),
        4 => (0..80u32, any::<u16>(), any::<u16>(), 0..4u8).prop_map(|(after, w, h, k)| BufMode::Shifty {
            after,
            wmask: if k & 1 == 1 { w & 127 } else { w },
            hmask: if k & 2 == 2 { h & 127 } else { 0 },
        }),
        3 => (0..40u32, 0..4u8).prop_map(|(after, other)| BufMode::ShiftyColor { after, other }),
        2 => (1..=20u16).prop_map(BufMode::Clear),
        1 => Just(BufMode::Realloc),
        1 => (0..=80u16).prop_map(BufMode::PanicAt),
    ]
    .boxed()
}

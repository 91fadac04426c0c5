//! Strict parser and coefficient decoder for the JPEG streams of ITU-T T.81 (sequential Huffman and
//! progressive spectral selection, 8 bit). Anything not allowed by the standard is an error.

pub const ZZ: [u8; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
    47, 55, 62, 63,
];

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// blocks the component really has
    pub bw: usize,
    pub bh: usize,
    /// blocks when padded to whole MCUs (grid of `coefs`)
    pub pw: usize,
    pub ph: usize,
    /// natural (row major) order within the block
    pub coefs: Vec<[i16; 64]>,
    /// padding blocks are present (interleaved scan)
    pub padded: bool,
}

impl Comp {
    pub fn block(&self, bx: usize, by: usize) -> &[i16; 64] {
        &self.coefs[by * self.pw + bx]
    }
}

#[derive(Clone, Debug)]
pub struct Huff {
    pub class: u8,
    pub id: u8,
    pub bits: [u8; 16],
    pub vals: Vec<u8>,
    /// uses of each symbol
    pub hist: Vec<u64>,
    len_of: [u8; 256],
    fast: Vec<(u8, u8)>,
    mincode: [i32; 17],
    maxcode: [i32; 17],
    valptr: [usize; 17],
}

const FAST: u32 = 9;

impl Huff {
    fn new(class: u8, id: u8, bits: [u8; 16], vals: Vec<u8>) -> Result<Huff, String> {
        let mut kraft = 0u64;
        for (i, b) in bits.iter().enumerate() {
            kraft += (*b as u64) << (15 - i);
        }
        if kraft >= 1 << 16 {
            return Err(format!(
                "Huffman table {class}/{id}: {} (bits {bits:?})",
                if kraft == 1 << 16 { "the all-ones code is used" } else { "code is over-subscribed" }
            ));
        }
        let mut len_of = [0u8; 256];
        let mut fast = vec![(0u8, 0u8); 1 << FAST];
        let mut mincode = [0i32; 17];
        let mut maxcode = [-1i32; 17];
        let mut valptr = [0usize; 17];
        let mut code = 0i32;
        let mut k = 0;
        for l in 1..=16usize {
            mincode[l] = code;
            valptr[l] = k;
            for _ in 0..bits[l - 1] {
                let v = vals[k];
                if len_of[v as usize] != 0 {
                    return Err(format!("Huffman table {class}/{id} lists symbol {v:#x} twice"));
                }
                len_of[v as usize] = l as u8;
                if l as u32 <= FAST {
                    let sh = FAST - l as u32;
                    for x in 0..(1usize << sh) {
                        fast[((code as usize) << sh) | x] = (l as u8, v);
                    }
                }
                maxcode[l] = code;
                code += 1;
                k += 1;
            }
            code <<= 1;
        }
        Ok(Huff { class, id, bits, vals, hist: vec![0; 256], len_of, fast, mincode, maxcode, valptr })
    }
    pub fn len_of(&self, sym: u8) -> u8 {
        self.len_of[sym as usize]
    }
    /// bits spent on codes of this table
    pub fn cost(&self) -> u64 {
        (0..256).map(|s| self.hist[s] * self.len_of[s] as u64).sum()
    }
    pub fn max_len(&self) -> usize {
        (1..=16).rev().find(|l| self.bits[l - 1] > 0).unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Scan {
    /// indices into Jpeg::comps
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    /// index into Jpeg::huffs, per scan component
    pub dc: Vec<Option<usize>>,
    pub ac: Vec<Option<usize>>,
    pub units: u64,
    pub restarts: Vec<u8>,
    /// entropy coded bytes with stuffing and restart markers
    pub range: (usize, usize),
    pub dri: u16,
}

#[derive(Clone, Debug)]
pub struct Jpeg {
    pub sof: u8,
    pub sof_pos: usize,
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    /// natural order
    pub qt: [Option<[u16; 64]>; 4],
    /// marker, offset of marker, payload range
    pub segs: Vec<(u8, usize, (usize, usize))>,
    pub scans: Vec<Scan>,
    pub huffs: Vec<Huff>,
    pub dri: Vec<u16>,
    pub ndqt: usize,
}

impl Jpeg {
    pub fn q(&self, c: usize) -> &[u16; 64] {
        self.qt[self.comps[c].tq].as_ref().unwrap()
    }
    /// (marker number, payload) of APPn segments
    pub fn apps<'a>(&self, data: &'a [u8]) -> Vec<(u8, &'a [u8])> {
        self.segs.iter().filter(|s| (0xE0..=0xEF).contains(&s.0)).map(|s| (s.0 - 0xE0, &data[s.2 .0..s.2 .1])).collect()
    }
    pub fn progressive(&self) -> bool {
        self.sof == 0xC2
    }
    pub fn has_ff00(&self, data: &[u8]) -> bool {
        self.scans.iter().any(|s| data[s.range.0..s.range.1].windows(2).any(|w| w == [0xFF, 0]))
    }
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    acc: u64,
    n: u32,
    /// bits consumed
    used: u64,
}

impl<'a> Bits<'a> {
    fn fill(&mut self) {
        while self.n <= 48 {
            let b = if self.pos < self.d.len() { self.d[self.pos] } else { 0 };
            self.pos += 1;
            self.acc |= (b as u64) << (56 - self.n);
            self.n += 8;
        }
    }
    fn peek(&mut self, k: u32) -> u32 {
        if self.n < k {
            self.fill();
        }
        (self.acc >> (64 - k)) as u32
    }
    fn skip(&mut self, k: u32) -> Result<(), String> {
        self.acc <<= k;
        self.n -= k;
        self.used += k as u64;
        if self.used > self.d.len() as u64 * 8 {
            return Err("entropy coded data ends too early".into());
        }
        Ok(())
    }
    fn get(&mut self, k: u32) -> Result<u32, String> {
        if k == 0 {
            return Ok(0);
        }
        let v = self.peek(k);
        self.skip(k)?;
        Ok(v)
    }
    fn sym(&mut self, h: &mut Huff) -> Result<u8, String> {
        let p = self.peek(16);
        let (l, v) = h.fast[(p >> (16 - FAST)) as usize];
        let (l, v) = if l > 0 {
            (l as u32, v)
        } else {
            let mut r = None;
            for l in FAST + 1..=16 {
                let c = (p >> (16 - l)) as i32;
                let li = l as usize;
                if h.maxcode[li] >= 0 && c <= h.maxcode[li] && c >= h.mincode[li] {
                    r = Some((l, h.vals[h.valptr[li] + (c - h.mincode[li]) as usize]));
                    break;
                }
            }
            match r {
                Some(x) => x,
                None => return Err(format!("code {p:#06x} is not in Huffman table {}/{}", h.class, h.id)),
            }
        };
        self.skip(l)?;
        h.hist[v as usize] += 1;
        Ok(v)
    }
    fn coef(&mut self, s: u32) -> Result<i32, String> {
        if s == 0 {
            return Ok(0);
        }
        let v = self.get(s)? as i32;
        Ok(if v < 1 << (s - 1) { v - (1 << s) + 1 } else { v })
    }
    fn finish(&mut self) -> Result<(), String> {
        let total = self.d.len() as u64 * 8;
        let rest = total - self.used;
        if rest >= 8 {
            return Err(format!("{rest} bits of entropy coded data left over after the last unit"));
        }
        if rest > 0 {
            let v = self.get(rest as u32)?;
            if v != (1 << rest) - 1 {
                return Err(format!("padding bits are {v:0w$b}, not all ones", w = rest as usize));
            }
        }
        Ok(())
    }
}

fn div_up(a: usize, b: usize) -> usize {
    a.div_ceil(b)
}

pub fn parse(d: &[u8]) -> Result<Jpeg, String> {
    let mut j = Jpeg {
        sof: 0,
        sof_pos: 0,
        w: 0,
        h: 0,
        comps: vec![],
        qt: [None; 4],
        segs: vec![],
        scans: vec![],
        huffs: vec![],
        dri: vec![],
        ndqt: 0,
    };
    if d.len() < 4 || d[0] != 0xFF || d[1] != 0xD8 {
        return Err("does not start with SOI".into());
    }
    let mut p = 2;
    // current tables by (class, id)
    let mut cur: [[Option<usize>; 4]; 2] = [[None; 4]; 2];
    let mut sent: Vec<[bool; 64]> = vec![];
    let mut dri = 0u16;
    loop {
        if p >= d.len() {
            return Err("stream ends without EOI".into());
        }
        if d[p] != 0xFF {
            return Err(format!("expected a marker at byte {p}, found {:#04x}", d[p]));
        }
        let mstart = p;
        while p < d.len() && d[p] == 0xFF {
            p += 1;
        }
        if p >= d.len() {
            return Err("stream ends inside a marker".into());
        }
        let m = d[p];
        p += 1;
        if m == 0xD9 {
            if j.sof == 0 {
                return Err("EOI without a frame".into());
            }
            for (i, s) in sent.iter().enumerate() {
                if let Some(k) = s.iter().position(|x| !x) {
                    return Err(format!("coefficient {k} of component {i} was never sent"));
                }
            }
            if p != d.len() {
                return Err(format!("{} bytes after EOI", d.len() - p));
            }
            return Ok(j);
        }
        if m == 0 || m == 1 || (0xD0..=0xD8).contains(&m) {
            return Err(format!("marker {m:#04x} is not allowed at byte {mstart}"));
        }
        if p + 2 > d.len() {
            return Err("stream ends inside a segment length".into());
        }
        let len = (d[p] as usize) << 8 | d[p + 1] as usize;
        if len < 2 || p + len > d.len() {
            return Err(format!("segment {m:#04x} at byte {mstart} has impossible length {len}"));
        }
        let (a, b) = (p + 2, p + len);
        let s = &d[a..b];
        j.segs.push((m, mstart, (a, b)));
        p = b;
        match m {
            0xE0..=0xEF | 0xFE => {}
            0xDB => {
                let mut q = 0;
                if s.is_empty() {
                    return Err("empty DQT".into());
                }
                while q < s.len() {
                    let (pq, tq) = (s[q] >> 4, (s[q] & 15) as usize);
                    if pq != 0 {
                        return Err(format!("DQT with precision {pq} in an 8 bit frame"));
                    }
                    if tq > 3 {
                        return Err(format!("DQT destination {tq}"));
                    }
                    if q + 65 > s.len() {
                        return Err("DQT segment length does not match its content".into());
                    }
                    let mut t = [0u16; 64];
                    for i in 0..64 {
                        t[ZZ[i] as usize] = s[q + 1 + i] as u16;
                    }
                    if t.contains(&0) {
                        return Err(format!("quantization table {tq} has a zero entry"));
                    }
                    j.qt[tq] = Some(t);
                    j.ndqt += 1;
                    q += 65;
                }
            }
            0xC4 => {
                let mut q = 0;
                if s.is_empty() {
                    return Err("empty DHT".into());
                }
                while q < s.len() {
                    if q + 17 > s.len() {
                        return Err("DHT segment length does not match its content".into());
                    }
                    let (class, id) = (s[q] >> 4, s[q] & 15);
                    if class > 1 || id > 3 {
                        return Err(format!("DHT class {class} destination {id}"));
                    }
                    let mut bits = [0u8; 16];
                    bits.copy_from_slice(&s[q + 1..q + 17]);
                    let n: usize = bits.iter().map(|x| *x as usize).sum();
                    if n > 256 || n == 0 || q + 17 + n > s.len() {
                        return Err(format!("DHT {class}/{id} with {n} codes does not fit its segment"));
                    }
                    let vals = s[q + 17..q + 17 + n].to_vec();
                    for v in &vals {
                        if class == 0 && *v > 11 {
                            return Err(format!("DC Huffman table {id} lists category {v}"));
                        }
                        if class == 1 && (*v & 15) > 10 {
                            return Err(format!("AC Huffman table {id} lists symbol {v:#04x}"));
                        }
                    }
                    cur[class as usize][id as usize] = Some(j.huffs.len());
                    j.huffs.push(Huff::new(class, id, bits, vals)?);
                    q += 17 + n;
                }
            }
            0xDD => {
                if s.len() != 2 {
                    return Err(format!("DRI of length {}", s.len() + 2));
                }
                dri = (s[0] as u16) << 8 | s[1] as u16;
                j.dri.push(dri);
            }
            0xC0..=0xC2 => {
                if j.sof != 0 {
                    return Err("second frame header".into());
                }
                j.sof = m;
                j.sof_pos = mstart;
                if s.len() < 6 {
                    return Err("short SOF".into());
                }
                if s[0] != 8 {
                    return Err(format!("sample precision {}", s[0]));
                }
                j.h = (s[1] as usize) << 8 | s[2] as usize;
                j.w = (s[3] as usize) << 8 | s[4] as usize;
                if j.w == 0 || j.h == 0 {
                    return Err("frame with a zero dimension".into());
                }
                let n = s[5] as usize;
                if n == 0 || n > 4 || s.len() != 6 + 3 * n {
                    return Err(format!("SOF length {} with {n} components", s.len() + 2));
                }
                let mut hm = 1;
                let mut vm = 1;
                for i in 0..n {
                    let e = &s[6 + 3 * i..];
                    let (h, v) = ((e[1] >> 4) as usize, (e[1] & 15) as usize);
                    if !(1..=4).contains(&h) || !(1..=4).contains(&v) || e[2] > 3 {
                        return Err(format!("component {i}: factors {h}x{v} table {}", e[2]));
                    }
                    if j.comps.iter().any(|c| c.id == e[0]) {
                        return Err(format!("component id {} used twice", e[0]));
                    }
                    hm = hm.max(h);
                    vm = vm.max(v);
                    j.comps.push(Comp {
                        id: e[0],
                        h,
                        v,
                        tq: e[2] as usize,
                        bw: 0,
                        bh: 0,
                        pw: 0,
                        ph: 0,
                        coefs: vec![],
                        padded: false,
                    });
                }
                let (mx, my) = (div_up(j.w, 8 * hm), div_up(j.h, 8 * vm));
                for c in &mut j.comps {
                    c.bw = div_up(div_up(j.w * c.h, hm), 8);
                    c.bh = div_up(div_up(j.h * c.v, vm), 8);
                    // a frame with one component is never interleaved
                    c.pw = if n == 1 { c.bw } else { mx * c.h };
                    c.ph = if n == 1 { c.bh } else { my * c.v };
                    c.coefs = vec![[0; 64]; c.pw * c.ph];
                }
                sent = vec![[false; 64]; n];
            }
            0xDA => {
                if j.sof == 0 {
                    return Err("SOS before SOF".into());
                }
                let n = *s.first().ok_or("empty SOS")? as usize;
                if n == 0 || n > 4 || s.len() != 4 + 2 * n {
                    return Err(format!("SOS length {} with {n} components", s.len() + 2));
                }
                let mut sc = Scan {
                    comps: vec![],
                    ss: s[1 + 2 * n] as usize,
                    se: s[2 + 2 * n] as usize,
                    dc: vec![],
                    ac: vec![],
                    units: 0,
                    restarts: vec![],
                    range: (p, p),
                    dri,
                };
                let al = s[3 + 2 * n];
                if al != 0 {
                    return Err(format!("scan with successive approximation {al:#04x}"));
                }
                let prog = j.sof == 0xC2;
                if prog {
                    if sc.ss > 63 || sc.se > 63 || sc.ss > sc.se || (sc.ss == 0 && sc.se != 0) || (sc.ss > 0 && n != 1) {
                        return Err(format!("progressive scan with Ss={} Se={} and {n} components", sc.ss, sc.se));
                    }
                } else if (sc.ss, sc.se) != (0, 63) {
                    return Err(format!("sequential scan with Ss={} Se={}", sc.ss, sc.se));
                }
                let mut blocks = 0;
                for i in 0..n {
                    let (id, td, ta) = (s[1 + 2 * i], (s[2 + 2 * i] >> 4) as usize, (s[2 + 2 * i] & 15) as usize);
                    let ci = j
                        .comps
                        .iter()
                        .position(|c| c.id == id)
                        .ok_or_else(|| format!("SOS names unknown component {id}"))?;
                    if let Some(l) = sc.comps.last() {
                        if *l >= ci {
                            return Err("scan components out of frame order".into());
                        }
                    }
                    let lim = if j.sof == 0xC0 { 1 } else { 3 };
                    if td > lim || ta > lim {
                        return Err(format!("scan uses Huffman tables {td}/{ta}"));
                    }
                    let need_dc = sc.ss == 0;
                    let need_ac = sc.se > 0;
                    sc.dc.push(if need_dc {
                        Some(cur[0][td].ok_or_else(|| format!("DC table {td} is not defined"))?)
                    } else {
                        None
                    });
                    sc.ac.push(if need_ac {
                        Some(cur[1][ta].ok_or_else(|| format!("AC table {ta} is not defined"))?)
                    } else {
                        None
                    });
                    if j.qt[j.comps[ci].tq].is_none() {
                        return Err(format!("quantization table {} is not defined", j.comps[ci].tq));
                    }
                    blocks += j.comps[ci].h * j.comps[ci].v;
                    if prog && sc.ss > 0 && !sent[ci][0] {
                        return Err(format!("AC scan of component {ci} before its DC scan"));
                    }
                    for (k, f) in sent[ci].iter_mut().enumerate().take(sc.se + 1).skip(sc.ss) {
                        if *f {
                            return Err(format!("coefficient {k} of component {ci} is sent twice"));
                        }
                        *f = true;
                    }
                    sc.comps.push(ci);
                }
                if n > 1 && blocks > 10 {
                    return Err(format!("interleaved MCU of {blocks} blocks"));
                }
                p = scan(d, p, &mut j, &mut sc)?;
                j.scans.push(sc);
            }
            _ => return Err(format!("marker {m:#04x} at byte {mstart} is not allowed here")),
        }
    }
}

/// Decodes one scan starting at byte `p`; returns the position of the marker after it.
fn scan(d: &[u8], p0: usize, j: &mut Jpeg, sc: &mut Scan) -> Result<usize, String> {
    // split into restart pieces
    let mut p = p0;
    let mut pieces: Vec<Vec<u8>> = vec![];
    let mut buf = Vec::new();
    loop {
        // copy up to the next 0xFF
        let q = d[p..].iter().position(|b| *b == 0xFF).map(|k| p + k).ok_or("scan data runs to the end of the stream")?;
        buf.extend_from_slice(&d[p..q]);
        let mut r = q + 1;
        while r < d.len() && d[r] == 0xFF {
            r += 1;
        }
        if r >= d.len() {
            return Err("scan data runs to the end of the stream".into());
        }
        match d[r] {
            0 => {
                if r != q + 1 {
                    return Err("fill bytes inside entropy coded data".into());
                }
                buf.push(0xFF);
                p = r + 1;
            }
            m @ 0xD0..=0xD7 => {
                pieces.push(std::mem::take(&mut buf));
                sc.restarts.push(m - 0xD0);
                p = r + 1;
            }
            _ => {
                pieces.push(std::mem::take(&mut buf));
                p = q;
                break;
            }
        }
    }
    sc.range = (p0, p);
    let n = sc.comps.len();
    let total: u64 = if n == 1 {
        let c = &j.comps[sc.comps[0]];
        (c.bw * c.bh) as u64
    } else {
        let c = &j.comps[sc.comps[0]];
        (c.pw / c.h * (c.ph / c.v)) as u64
    };
    let want = if sc.dri > 0 { (total - 1) / sc.dri as u64 } else { 0 };
    if sc.restarts.len() as u64 != want {
        return Err(format!(
            "scan of {total} units with restart interval {} has {} restart markers instead of {want}",
            sc.dri,
            sc.restarts.len()
        ));
    }
    for (i, r) in sc.restarts.iter().enumerate() {
        if *r as usize != i % 8 {
            return Err(format!("restart marker {i} of the scan is RST{r}"));
        }
    }
    let mut unit = 0u64;
    let prog = j.sof == 0xC2;
    for piece in &pieces {
        let cnt = if sc.dri > 0 { (sc.dri as u64).min(total - unit) } else { total };
        let mut br = Bits { d: piece, pos: 0, acc: 0, n: 0, used: 0 };
        let mut pred = [0i32; 4];
        let mut eobrun = 0u32;
        for u in unit..unit + cnt {
            for (si, &ci) in sc.comps.iter().enumerate() {
                let (h, v, pw, bw) = {
                    let c = &j.comps[ci];
                    (c.h, c.v, c.pw, c.bw)
                };
                let nb = if n == 1 { 1 } else { h * v };
                for k in 0..nb {
                    let (bx, by) = if n == 1 {
                        ((u % bw as u64) as usize, (u / bw as u64) as usize)
                    } else {
                        let mx = (pw / h) as u64;
                        ((u % mx) as usize * h + k % h, (u / mx) as usize * v + k / h)
                    };
                    let at = |e: String| format!("component {ci} block {bx},{by}: {e}");
                    let mut blk = j.comps[ci].coefs[by * pw + bx];
                    let mut k = sc.ss;
                    if k == 0 {
                        let s = br.sym(&mut j.huffs[sc.dc[si].unwrap()]).map_err(at)?;
                        let diff = br.coef(s as u32).map_err(at)?;
                        pred[ci] += diff;
                        if !(-2048..=2047).contains(&pred[ci]) {
                            return Err(at(format!("DC coefficient {} out of range", pred[ci])));
                        }
                        blk[0] = pred[ci] as i16;
                        k = 1;
                    }
                    if sc.se > 0 {
                        if eobrun > 0 {
                            eobrun -= 1;
                        } else {
                            let t = sc.ac[si].unwrap();
                            while k <= sc.se {
                                let rs = br.sym(&mut j.huffs[t]).map_err(at)?;
                                let (r, s) = ((rs >> 4) as usize, rs & 15);
                                if s == 0 {
                                    if r == 15 {
                                        k += 16;
                                        if k > sc.se {
                                            // 16 zeros can not end the band: a coefficient must follow
                                            return Err(at("zero run passes the end of the band".into()));
                                        }
                                        continue;
                                    }
                                    if r == 0 {
                                        break;
                                    }
                                    if !prog {
                                        return Err(at(format!("symbol {rs:#04x} in a sequential scan")));
                                    }
                                    eobrun = (1 << r) - 1 + br.get(r as u32).map_err(at)?;
                                    break;
                                }
                                k += r;
                                if k > sc.se {
                                    return Err(at("zero run passes the end of the band".into()));
                                }
                                blk[ZZ[k] as usize] = br.coef(s as u32).map_err(at)? as i16;
                                k += 1;
                            }
                        }
                    }
                    let c = &mut j.comps[ci];
                    c.coefs[by * pw + bx] = blk;
                }
            }
        }
        unit += cnt;
        if eobrun > 0 {
            return Err("end-of-band run passes the end of the piece".into());
        }
        br.finish().map_err(|e| format!("scan piece ending at unit {unit}: {e}"))?;
    }
    sc.units = total;
    if n > 1 {
        for &ci in &sc.comps {
            j.comps[ci].padded = true;
        }
    }
    Ok(p)
}

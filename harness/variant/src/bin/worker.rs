//! Reads requests from stdin, writes answers to stdout. Used where the build under test can not be loaded into the
//! driver (sanitizer, 32 bit, Miri), or where the process itself is prepared: the pixels lie next to an inaccessible
//! page, and JE_FILL=N makes the allocator fill fresh memory with that byte.
//! Frame in: u32 le length, request JSON, u32 le length, pixels. Frame out: u32 le, response JSON, u32 le, bytes.
//! A request that is a JSON array of [request, number of pixel bytes] runs all of them at the same time, each on a
//! thread of its own; the answer is an array of [response, number of bytes].
//! A zero request length converts the pixels with rgb_to_ycbcr; end of input ends the program.
use std::io::{Read, Write};

fn frame(r: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0u8; 4];
    r.read_exact(&mut n).ok()?;
    let mut v = vec![0u8; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut v).ok()?;
    Some(v)
}

#[cfg(not(miri))]
mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI32, Ordering::Relaxed};

    /// -1: no filling
    pub static FILL: AtomicI32 = AtomicI32::new(-1);
    pub struct A;

    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            let f = FILL.load(Relaxed);
            if f >= 0 && !p.is_null() {
                std::ptr::write_bytes(p, f as u8, l.size());
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            let f = FILL.load(Relaxed);
            if f >= 0 && !q.is_null() && n > l.size() {
                std::ptr::write_bytes(q.add(l.size()), f as u8, n - l.size());
            }
            q
        }
    }

    #[global_allocator]
    static G: A = A;
}

/// A copy of the pixels that ends right before (or begins right after) inaccessible memory.
#[cfg(not(miri))]
struct Fenced {
    base: *mut u8,
    len: usize,
    at: *mut u8,
    n: usize,
}

#[cfg(not(miri))]
impl Fenced {
    fn new(px: &[u8], at_start: bool) -> Fenced {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
            fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        }
        const P: usize = 4096;
        let body = (px.len() + P - 1) / P * P;
        let len = body + 2 * P;
        unsafe {
            let base = mmap(std::ptr::null_mut(), len, 0, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap");
            if body > 0 {
                assert!(mprotect(base.add(P), body, 3) == 0, "mprotect");
            }
            let at = if at_start { base.add(P) } else { base.add(P + body - px.len()) };
            std::ptr::copy_nonoverlapping(px.as_ptr(), at, px.len());
            Fenced { base, len, at, n: px.len() }
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.n) }
    }
}

#[cfg(not(miri))]
impl Drop for Fenced {
    fn drop(&mut self) {
        extern "C" {
            fn munmap(a: *mut u8, n: usize) -> i32;
        }
        unsafe { munmap(self.base, self.len) };
    }
}

#[cfg(miri)]
struct Fenced(Box<[u8]>);

#[cfg(miri)]
impl Fenced {
    fn new(px: &[u8], _: bool) -> Fenced {
        Fenced(px.into())
    }
    fn get(&self) -> &[u8] {
        &self.0
    }
}

fn together(all: Vec<(vcore::case::Request, usize)>, px: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let start = std::sync::Barrier::new(all.len());
    let mut rest = px;
    let done: Vec<_> = std::thread::scope(|s| {
        let v: Vec<_> = all
            .iter()
            .map(|(rq, n)| {
                let (a, b) = rest.split_at(*n);
                rest = b;
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    variant::run(rq, a)
                })
            })
            .collect();
        v.into_iter().map(|t| t.join().expect("thread")).collect()
    });
    let heads: Vec<_> = done.iter().map(|(rs, out)| (rs, out.len())).collect();
    (serde_json::to_vec(&heads).expect("responses"), done.iter().flat_map(|d| d.1.iter().copied()).collect())
}

fn main() {
    #[cfg(not(miri))]
    if let Some(n) = std::env::var("JE_FILL").ok().and_then(|v| v.parse::<u8>().ok()) {
        alloc::FILL.store(n as i32, std::sync::atomic::Ordering::Relaxed);
    }
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    while let (Some(rq), Some(px)) = (frame(&mut i), frame(&mut i)) {
        let (js, out) = if rq.is_empty() {
            let mut v = vec![];
            variant::convert(0, &px, &mut v);
            (vec![], v)
        } else if rq[0] == b'[' {
            together(serde_json::from_slice(&rq).expect("requests"), &px)
        } else {
            let rq: vcore::case::Request = serde_json::from_slice(&rq).expect("request");
            let fenced = Fenced::new(&px, (rq.w as u32 * 7 + rq.h as u32 * 3 + rq.quality as u32) % 4 == 0);
            let (rs, out) = variant::run(&rq, fenced.get());
            (serde_json::to_vec(&rs).expect("response"), out)
        };
        let mut m = Vec::with_capacity(js.len() + out.len() + 8);
        m.extend_from_slice(&(js.len() as u32).to_le_bytes());
        m.extend_from_slice(&js);
        m.extend_from_slice(&(out.len() as u32).to_le_bytes());
        m.extend_from_slice(&out);
        o.write_all(&m).unwrap();
        o.flush().unwrap();
    }
}

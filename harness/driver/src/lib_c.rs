//! dlopen of the builds under test and of the libjpeg shim.
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_ulong, c_void};
use vcore::case::*;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

unsafe fn open(path: &str) -> Result<*mut c_void, String> {
    let c = CString::new(path).unwrap();
    let h = dlopen(c.as_ptr(), 2);
    if h.is_null() {
        return Err(std::ffi::CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
    }
    Ok(h)
}

unsafe fn sym(h: *mut c_void, n: &str) -> *mut c_void {
    let c = CString::new(n).unwrap();
    let p = dlsym(h, c.as_ptr());
    assert!(!p.is_null(), "symbol {n} is missing");
    p
}

type Callback = extern "C" fn(*mut c_void, *const u8, usize, *const u8, usize);
type RunFn = unsafe extern "C" fn(*const u8, usize, *const u8, usize, *mut c_void, Callback);

type ErrorFn =
    unsafe extern "C" fn(c_uint, u64, u64, *const u8, usize, *mut c_void, extern "C" fn(*mut c_void, *const u8, usize, *const u8, usize));

extern "C" fn collect_value(ud: *mut c_void, j: *const u8, jn: usize, _: *const u8, _: usize) {
    unsafe {
        *(ud as *mut serde_json::Value) =
            serde_json::from_slice(std::slice::from_raw_parts(j, jn)).expect("description of an error");
    }
}

pub struct Variant {
    pub name: String,
    run: RunFn,
    conv: unsafe extern "C" fn(c_uint, *const u8, usize, *mut u8) -> c_uint,
    factors: extern "C" fn(u8, u8) -> c_int,
    error: ErrorFn,
    pub flags: u32,
}
unsafe impl Send for Variant {}
unsafe impl Sync for Variant {}

extern "C" fn collect(ud: *mut c_void, j: *const u8, jn: usize, o: *const u8, on: usize) {
    unsafe {
        let r = &mut *(ud as *mut Option<(Response, Vec<u8>)>);
        let js = std::slice::from_raw_parts(j, jn);
        let out = std::slice::from_raw_parts(o, on).to_vec();
        *r = Some((serde_json::from_slice(js).expect("response"), out));
    }
}

impl Variant {
    pub fn load(name: &str, path: &str) -> Result<Variant, String> {
        unsafe {
            let h = open(path)?;
            let flags: extern "C" fn() -> u32 = std::mem::transmute(sym(h, "je_flags"));
            Ok(Variant {
                name: name.into(),
                run: std::mem::transmute::<*mut c_void, RunFn>(sym(h, "je_run")),
                conv: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(c_uint, *const u8, usize, *mut u8) -> c_uint>(
                    sym(h, "je_convert"),
                ),
                factors: std::mem::transmute::<*mut c_void, extern "C" fn(u8, u8) -> c_int>(sym(h, "je_from_factors")),
                error: std::mem::transmute::<*mut c_void, ErrorFn>(sym(h, "je_error")),
                flags: flags(),
            })
        }
    }
    pub fn run(&self, rq: &Request, px: &[u8]) -> (Response, Vec<u8>) {
        let js = serde_json::to_vec(rq).unwrap();
        crate::fuzz::watch(&js, px, rq);
        let mut r: Option<(Response, Vec<u8>)> = None;
        unsafe { (self.run)(js.as_ptr(), js.len(), px.as_ptr(), px.len(), &mut r as *mut _ as *mut c_void, collect) };
        r.expect("no response")
    }
    /// None after a panic in the code under test
    pub fn convert(&self, kind: u32, input: &[u8]) -> Option<Vec<u8>> {
        let mut o = vec![0u8; input.len()];
        let r = unsafe { (self.conv)(kind, input.as_ptr(), input.len(), o.as_mut_ptr()) };
        (r == 0).then_some(o)
    }
    /// What a user sees of an error with these parts.
    pub fn error(&self, kind: u32, a: u64, b: u64, text: &str) -> serde_json::Value {
        let mut r = serde_json::Value::Null;
        unsafe { (self.error)(kind, a, b, text.as_ptr(), text.len(), &mut r as *mut _ as *mut c_void, collect_value) };
        r
    }
    pub fn from_factors(&self, h: u8, v: u8) -> i32 {
        (self.factors)(h, v)
    }
}

type DecodeFn =
    unsafe extern "C" fn(*const u8, c_ulong, c_int, *mut u8, c_ulong, *mut c_int, *mut c_char) -> c_int;

pub struct LibJpeg {
    dec: DecodeFn,
}
unsafe impl Send for LibJpeg {}
unsafe impl Sync for LibJpeg {}

#[derive(Debug)]
pub struct Decoded {
    pub w: usize,
    pub h: usize,
    pub comps: usize,
    /// 1 gray 2 RGB 3 YCbCr 4 CMYK 5 YCCK
    pub space: i32,
    pub warnings: i32,
    pub out_comps: usize,
    pub px: Vec<u8>,
    pub msg: String,
}

impl LibJpeg {
    pub fn load(path: &str) -> Option<LibJpeg> {
        unsafe {
            let h = open(path).ok()?;
            let o: extern "C" fn() -> c_int = std::mem::transmute(sym(h, "ljt_open"));
            if o() != 0 {
                return None;
            }
            Some(LibJpeg { dec: std::mem::transmute::<*mut c_void, DecodeFn>(sym(h, "ljt_decode")) })
        }
    }
    pub fn decode(&self, d: &[u8], w: usize, h: usize, space: i32) -> Result<Decoded, String> {
        let mut px = vec![0u8; w * h * 4];
        let mut info = [0 as c_int; 6];
        let mut msg = [0 as c_char; 256];
        let r = unsafe {
            (self.dec)(d.as_ptr(), d.len() as c_ulong, space, px.as_mut_ptr(), px.len() as c_ulong, info.as_mut_ptr(), msg.as_mut_ptr())
        };
        let m = unsafe { std::ffi::CStr::from_ptr(msg.as_ptr()).to_string_lossy().into_owned() };
        match r {
            0 => {
                px.truncate(info[0] as usize * info[1] as usize * info[5] as usize);
                Ok(Decoded {
                    w: info[0] as usize,
                    h: info[1] as usize,
                    comps: info[2] as usize,
                    space: info[3],
                    warnings: info[4],
                    out_comps: info[5] as usize,
                    px,
                    msg: m,
                })
            }
            1 => Err(format!("libjpeg: {m}")),
            _ => Err(format!("libjpeg sees a {}x{} image", info[0], info[1])),
        }
    }
}

type MemFn = unsafe extern "C" fn(*const u8, usize, *const u8, usize, u64, c_uint, *mut i64);

/// A build that accounts for memory.
pub struct Accounting {
    pub name: &'static str,
    mem: MemFn,
}
unsafe impl Send for Accounting {}
unsafe impl Sync for Accounting {}

#[derive(Debug)]
pub struct Footprint {
    pub bytes_left: i64,
    pub blocks_left: i64,
    pub peak: i64,
    pub allocations: i64,
    pub outcome: i64,
}

impl Accounting {
    pub fn load(libs: &str, name: &'static str) -> Accounting {
        unsafe {
            let h = open(&format!("{libs}/{name}/libvariant.so")).unwrap_or_else(|e| panic!("{e}"));
            Accounting { name, mem: std::mem::transmute::<*mut c_void, MemFn>(sym(h, "je_memory")) }
        }
    }
    pub fn run(&self, rq: &Request, px: &[u8], room: u64, mode: u32) -> Footprint {
        let js = serde_json::to_vec(rq).unwrap();
        crate::fuzz::watch(&js, px, rq);
        let mut o = [0i64; 5];
        unsafe { (self.mem)(js.as_ptr(), js.len(), px.as_ptr(), px.len(), room, mode, o.as_mut_ptr()) };
        Footprint { bytes_left: o[0], blocks_left: o[1], peak: o[2], allocations: o[3], outcome: o[4] }
    }
}

#[repr(C)]
struct CovState {
    counters: *const u8,
    ncounters: usize,
    sites: *const Site,
    touched: *const u32,
    ntouched: usize,
}

/// One comparison in the code under test (see covrt.c).
#[repr(C)]
pub struct Site {
    pub hamming: u64,
    pub magnitude: u64,
    pub smallest: u64,
    pub key: u64,
    hits: u64,
}

/// A private copy of an instrumented build.
pub struct Coverage {
    run: RunFn,
    reset: extern "C" fn(),
    state: unsafe extern "C" fn(*mut CovState),
}
unsafe impl Send for Coverage {}

extern "C" fn ignore(_: *mut c_void, _: *const u8, _: usize, _: *const u8, _: usize) {}

impl Coverage {
    pub fn load(ctx: &crate::ctx::Ctx, shard: usize, kind: usize) -> Coverage {
        let name = ["cov-scalar", "cov-simd"][kind];
        let copy = format!("{}/cov{shard}-{}.so", ctx.scratch, std::process::id());
        let from = format!("{}/{name}/libvariant.so", ctx.libs);
        unsafe {
            let h = {
                let _g = crate::fuzz::COPY.lock();
                if !std::path::Path::new(&copy).exists() {
                    std::fs::copy(&from, &copy).unwrap_or_else(|e| panic!("{from}: {e}"));
                }
                open(&copy).unwrap_or_else(|e| panic!("{e}"))
            };
            Coverage {
                run: std::mem::transmute::<*mut c_void, RunFn>(sym(h, "je_run")),
                reset: std::mem::transmute::<*mut c_void, extern "C" fn()>(sym(h, "je_cov_reset")),
                state: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*mut CovState)>(sym(h, "je_cov")),
            }
        }
    }
    pub fn reset(&self) {
        (self.reset)()
    }
    pub fn run(&self, js: &[u8], px: &[u8]) {
        unsafe { (self.run)(js.as_ptr(), js.len(), px.as_ptr(), px.len(), std::ptr::null_mut(), ignore) };
    }
    /// edge counters since the last reset
    pub fn counters(&self) -> &[u8] {
        let s = self.raw();
        unsafe { std::slice::from_raw_parts(s.counters, s.ncounters) }
    }
    /// comparisons executed since the last reset
    pub fn sites(&self) -> impl Iterator<Item = &Site> {
        let s = self.raw();
        let t = unsafe { std::slice::from_raw_parts(s.touched, s.ntouched) };
        t.iter().map(move |i| unsafe { &*s.sites.add(*i as usize) })
    }
    fn raw(&self) -> CovState {
        let mut s = CovState { counters: std::ptr::null(), ncounters: 0, sites: std::ptr::null(), touched: std::ptr::null(), ntouched: 0 };
        unsafe { (self.state)(&mut s) };
        s
    }
}

//! Client of a worker process (sanitizer, 32 bit or fresh-process runs).
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use vcore::case::*;

pub struct Worker {
    child: Child,
    stdin: std::process::ChildStdin,
    rx: mpsc::Receiver<Option<(Vec<u8>, Vec<u8>)>>,
    err: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}

fn frame(r: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0u8; 4];
    r.read_exact(&mut n).ok()?;
    let mut v = vec![0u8; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut v).ok()?;
    Some(v)
}

pub fn frames(rq: &Request, px: &[u8]) -> Vec<u8> {
    raw_frames(serde_json::to_vec(rq).unwrap(), px)
}

/// requests that are to run at the same time
pub fn frames_together(all: &[(Request, Vec<u8>)]) -> Vec<u8> {
    let heads: Vec<_> = all.iter().map(|(r, d)| (r, d.len())).collect();
    let px: Vec<u8> = all.iter().flat_map(|x| x.1.iter().copied()).collect();
    raw_frames(serde_json::to_vec(&heads).unwrap(), &px)
}

fn apart(js: &[u8], mut out: &[u8]) -> Option<Vec<(Response, Vec<u8>)>> {
    let heads: Vec<(Response, usize)> = serde_json::from_slice(js).ok()?;
    let mut v = vec![];
    for (r, n) in heads {
        let (a, b) = out.split_at_checked(n)?;
        out = b;
        v.push((r, a.to_vec()));
    }
    Some(v)
}

fn raw_frames(js: Vec<u8>, px: &[u8]) -> Vec<u8> {
    let mut m = Vec::with_capacity(js.len() + px.len() + 8);
    m.extend_from_slice(&(js.len() as u32).to_le_bytes());
    m.extend_from_slice(&js);
    m.extend_from_slice(&(px.len() as u32).to_le_bytes());
    m.extend_from_slice(px);
    m
}

pub fn parse_frames(mut d: &[u8]) -> Vec<(Response, Vec<u8>)> {
    let mut v = vec![];
    while let (Some(a), Some(b)) = (frame(&mut d), frame(&mut d)) {
        if let Some(all) = apart(&a, &b) {
            v.extend(all);
            continue;
        }
        match serde_json::from_slice(&a) {
            Ok(r) => v.push((r, b)),
            Err(_) => break,
        }
    }
    v
}

impl Worker {
    pub fn spawn(path: &str, env: &[(String, String)]) -> Worker {
        let mut child = Command::new(path)
            .envs(env.iter().cloned())
            .env("ASAN_OPTIONS", "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:color=never")
            .env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0:color=never")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {path}: {e}"));
        let stdin = child.stdin.take().unwrap();
        let mut out = child.stdout.take().unwrap();
        let mut er = child.stderr.take().unwrap();
        let err = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let e2 = err.clone();
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok(n) = er.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut g = e2.lock().unwrap();
                if g.len() < 1 << 16 {
                    g.extend_from_slice(&b[..n]);
                }
            }
        });
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || loop {
            match (frame(&mut out), frame(&mut out)) {
                (Some(a), Some(b)) => {
                    if tx.send(Some((a, b))).is_err() {
                        break;
                    }
                }
                _ => {
                    let _ = tx.send(None);
                    break;
                }
            }
        });
        Worker { child, stdin, rx, err }
    }

    /// Processor time of the worker process (user and system).
    fn cpu_seconds(&self) -> f64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        (n(11) + n(12)) / 100.0
    }

    /// Runs one request; a dead worker is reported as Outcome::Died.
    pub fn run(&mut self, rq: &Request, px: &[u8]) -> (Response, Vec<u8>) {
        match self.exchange(&frames(rq, px)) {
            Ok((a, b)) => (serde_json::from_slice(&a).expect("response"), b),
            Err(r) => (*r, vec![]),
        }
    }

    /// Runs all requests at the same time. The error describes how the worker died.
    pub fn run_together(&mut self, all: &[(Request, Vec<u8>)]) -> Result<Vec<(Response, Vec<u8>)>, String> {
        match self.exchange(&frames_together(all)) {
            Ok((a, b)) => Ok(apart(&a, &b).expect("responses")),
            Err(r) => match r.outcome {
                Outcome::Died(m) => Err(m),
                _ => unreachable!(),
            },
        }
    }

    fn exchange(&mut self, msg: &[u8]) -> Result<(Vec<u8>, Vec<u8>), Box<Response>> {
        let died = |m: String| {
            Err(Box::new(Response {
                init: None,
                ops: vec![],
                outcome: Outcome::Died(m),
                calls: 0,
                flushes: 0,
                calls_after_error: 0,
                rows: RowLog::default(),
            }))
        };
        let w = self.stdin.write_all(msg).and_then(|_| self.stdin.flush());
        let (cpu0, t0) = (self.cpu_seconds(), std::time::Instant::now());
        let r = if w.is_err() {
            Ok(None)
        } else {
            loop {
                let r = self.rx.recv_timeout(std::time::Duration::from_secs(2));
                if r.is_ok() {
                    break r;
                }
                let cpu = self.cpu_seconds() - cpu0;
                let wall = t0.elapsed().as_secs_f64();
                if cpu > 120.0 || (wall > 300.0 && cpu < 0.02 * wall) {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    return died(format!("no answer after {wall:.0} s, {cpu:.0} s of processor time"));
                }
                if wall > 600.0 {
                    break r;
                }
            }
        };
        match r {
            Ok(Some(x)) => Ok(x),
            Ok(None) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                std::thread::sleep(std::time::Duration::from_millis(50));
                let e = self.err.lock().unwrap();
                let t = String::from_utf8_lossy(&e);
                let l: Vec<&str> = t
                    .lines()
                    .filter(|l| l.contains("ERROR") || l.contains("WARNING: ThreadSanitizer") || l.contains("#0 ") || l.contains("panicked") || l.contains("unsafe precondition") || l.contains("#1 ") || l.contains("#2 "))
                    .take(6)
                    .collect();
                died(format!("process ended ({st}): {}", l.join(" | ")))
            }
            Err(_) => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                eprintln!("HARNESS ERROR: a worker process did not answer");
                std::process::exit(2);
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

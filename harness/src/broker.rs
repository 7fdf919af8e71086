//! The broker under test: a process of its own, watched from outside.
use crate::report::{Ctx, Fail, Res};
use crate::rng::Rng;
use std::collections::VecDeque;
use std::io::Read;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The page shared with the shim (shim/shim.c)
#[repr(C)]
pub struct Ctl {
    pub accept_fail_permille: AtomicU32,
    pub accept_errno: AtomicU32,
    pub preempt_per_million: AtomicU32,
    pub preempt_max_us: AtomicU32,
    pub seed: AtomicU32,
    pad: u32,
    pub accepts: AtomicU64,
    pub accept_fails: AtomicU64,
    pub preempts: AtomicU64,
    pub recv_calls: AtomicU64,
    pub recv_bytes: AtomicU64,
    pub send_calls: AtomicU64,
    pub send_bytes: AtomicU64,
    pub short_sends: AtomicU64,
    pub binds: AtomicU64,
    pub accept_emfile: AtomicU64,
    /// What the broker wanted to bind to
    pub bind_port: AtomicU32,
    pub bind_any: AtomicU32,
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// Virtual seconds per second
    pub clock: u32,
    pub sndbuf: Option<u32>,
    pub rcvbuf: Option<u32>,
    pub nofile: Option<u64>,
    /// So many of 1000 writes are done in part only
    pub short: Option<u32>,
    /// Chance per million, longest pause in microseconds
    pub preempt: Option<(u32, u32)>,
    /// An instrumented build instead: (path, environment)
    pub bin: Option<String>,
    pub env: Vec<(String, String)>,
    pub start_limit: Duration,
    /// Program and arguments instead of the plain binary (Miri)
    pub cmd: Option<Vec<String>>,
    pub cwd: Option<String>,
    /// The exact address to use
    pub addr: Option<SocketAddr>,
    /// Standard error and output that cannot be written to
    pub deaf: Option<&'static str>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            clock: 1,
            sndbuf: None,
            rcvbuf: None,
            nofile: None,
            short: None,
            preempt: None,
            bin: None,
            env: vec![],
            start_limit: Duration::from_secs(30),
            cmd: None,
            cwd: None,
            addr: None,
            deaf: None,
        }
    }
}

#[derive(Default)]
pub struct Log {
    pub tail: VecDeque<String>,
    pub lines: u64,
    /// Panics and sanitizer reports, with the lines that follow
    pub reports: Vec<String>,
    left: usize,
}

pub struct Broker {
    pub child: Child,
    pub addr: SocketAddr,
    pub ctl: &'static Ctl,
    ctl_path: String,
    pub log: Arc<Mutex<Log>>,
    pub pid: u32,
}

static N: AtomicU32 = AtomicU32::new(0);

/// Held while a process is made and while an address is tried out: a child has the listening
/// socket of the trial, too, until it runs its program.
pub static FORK: Mutex<()> = Mutex::new(());

pub fn free_addr() -> SocketAddr {
    let pid = std::process::id();
    loop {
        let n = N.fetch_add(1, SeqCst);
        let a = SocketAddr::from(([127, 2 + (pid % 120) as u8, ((pid / 120) % 250) as u8, 1 + (n % 250) as u8], 2883 + (n / 250) as u16));
        let _one = FORK.lock().unwrap();
        if TcpListener::bind(a).is_ok() {
            return a;
        }
    }
}

const MARKS: &[&str] = &[
    "panicked at",
    "has overflowed its stack",
    "fatal runtime error",
    "memory allocation of",
    "ERROR: AddressSanitizer",
    "ERROR: LeakSanitizer",
    "WARNING: ThreadSanitizer",
    "FATAL: ThreadSanitizer",
    "ThreadSanitizer:DEADLYSIGNAL",
    "AddressSanitizer:DEADLYSIGNAL",
    "error: Undefined Behavior",
    "unsafe precondition",
    "double free",
    "corrupted",
    "terminating due to",
];

fn drain(mut from: impl Read, log: Arc<Mutex<Log>>) {
    let mut buf = vec![0u8; 64 * 1024];
    let mut line: Vec<u8> = Vec::new();
    loop {
        let n = match from.read(&mut buf) {
            Ok(0) | Err(_) => return,
            Ok(n) => n,
        };
        let mut l = log.lock().unwrap();
        for part in buf[..n].split_inclusive(|c| *c == b'\n') {
            if line.len() < 4096 {
                line.extend_from_slice(part);
            }
            if part.last() == Some(&b'\n') {
                let s = String::from_utf8_lossy(&line).trim_end().to_string();
                line.clear();
                l.lines += 1;
                // log records name client identifiers and the like; only look at other lines
                let record = s.starts_with('[') && s.contains("Z ");
                if !record && MARKS.iter().any(|m| s.contains(m)) {
                    if l.reports.len() < 2000 {
                        l.reports.push(String::new());
                    }
                    l.left = 40;
                }
                if l.left > 0 && !record {
                    l.left -= 1;
                    if let Some(r) = l.reports.last_mut() {
                        if r.len() < 8000 {
                            r.push_str(&s);
                            r.push('\n');
                        }
                    }
                }
                if l.tail.len() >= 200 {
                    l.tail.pop_front();
                }
                let short: String = s.chars().take(300).collect();
                l.tail.push_back(short);
            }
        }
    }
}

impl Broker {
    pub fn start(o: &Opts) -> Res<Broker> {
        let inc = |s: String| Fail::Inc(s);
        let addr = o.addr.unwrap_or_else(free_addr);
        let work = std::env::var("VH_WORK").unwrap_or_else(|_| "/tmp".into());
        let ctl_path = format!("{}/ctl-{}-{}", work, std::process::id(), N.fetch_add(1, SeqCst));
        std::fs::write(&ctl_path, vec![0u8; 4096]).map_err(|e| inc(format!("ctl page: {}", e)))?;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&ctl_path).map_err(|e| inc(e.to_string()))?;
        let p = unsafe { crate::sys::mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return Err(inc("mmap".into()));
        }
        let ctl: &'static Ctl = unsafe { &*(p as *const Ctl) };
        if let Some((pm, us)) = o.preempt {
            ctl.preempt_max_us.store(us, SeqCst);
            ctl.seed.store(Rng::new(pm as u64, addr.port() as u64).next() as u32, SeqCst);
            ctl.preempt_per_million.store(pm, SeqCst);
        }
        let bin = o.bin.clone().unwrap_or_else(|| std::env::var("BROKER_BIN").expect("BROKER_BIN"));
        let shim = std::env::var(if o.preempt.is_some() && o.bin.is_none() { "VSHIM_MALLOC" } else { "VSHIM" }).expect("VSHIM");
        let mut c = match &o.cmd {
            Some(v) => {
                let mut c = Command::new(&v[0]);
                c.args(&v[1..]);
                c
            }
            None => Command::new(bin),
        };
        if let Some(d) = &o.cwd {
            c.current_dir(d);
        }
        if o.cmd.is_none() {
            c.env("LD_PRELOAD", shim)
                .env("VSHIM_CTL", &ctl_path)
                .env("VSHIM_ADDR", addr.ip().to_string())
                .env("VSHIM_PORT", addr.port().to_string())
                .env("VSHIM_CLOCK", o.clock.to_string());
            if let Some(n) = o.sndbuf {
                c.env("VSHIM_SNDBUF", n.to_string());
            }
            if let Some(n) = o.short {
                c.env("VSHIM_SHORT", n.to_string());
            }
            if let Some(n) = o.rcvbuf {
                c.env("VSHIM_RCVBUF", n.to_string());
            }
        }
        c.env("RUST_BACKTRACE", "1");
        for (k, v) in &o.env {
            c.env(k, v);
        }
        let (nofile, deaf) = (o.nofile, o.deaf);
        let only_output = deaf.is_some_and(|d| d.starts_with("output "));
        let closed = deaf.is_some_and(|d| d.ends_with("closed descriptor"));
        unsafe {
            c.pre_exec(move || {
                crate::sys::die_with_parent();
                if let Some(n) = nofile {
                    crate::sys::limit_files(n);
                }
                if closed {
                    crate::sys::close(1);
                    if !only_output {
                        crate::sys::close(2);
                    }
                }
                Ok(())
            });
        }
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if deaf.is_some_and(|d| d.ends_with("/dev/full")) {
            let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| inc(e.to_string()));
            c.stdout(full()?);
            if !only_output {
                c.stderr(full()?);
            }
        }
        let spawned = {
            let _one = FORK.lock().unwrap();
            c.spawn()
        };
        let mut child = spawned.map_err(|e| inc(format!("cannot start the broker: {}", e)))?;
        let log = Arc::new(Mutex::new(Log::default()));
        let (out, err) = (child.stdout.take(), child.stderr.take());
        // "output ..." is only standard output: what the broker then has to say is on standard error
        if let Some(a) = err.filter(|_| deaf.is_none() || only_output) {
            let b = log.clone();
            std::thread::spawn(move || drain(a, b));
        }
        if let Some(a) = out.filter(|_| deaf.is_none()) {
            let b = log.clone();
            std::thread::spawn(move || drain(a, b));
        }
        let pid = child.id();
        let mut br = Broker { child, addr, ctl, ctl_path, log, pid };
        let end = Instant::now() + o.start_limit;
        loop {
            if TcpStream::connect(addr).is_ok() {
                return Ok(br);
            }
            if let Ok(Some(st)) = br.child.try_wait() {
                return Err(Fail::Inc(format!("the broker does not start: {}\n{}", st, br.tail(20))));
            }
            if Instant::now() > end {
                return Err(Fail::Inc(format!("the broker does not listen\n{}", br.tail(20))));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    pub fn tail(&self, n: usize) -> String {
        let l = self.log.lock().unwrap();
        l.tail.iter().rev().take(n).rev().cloned().collect::<Vec<_>>().join("\n")
    }
    pub fn reports(&self) -> Vec<String> {
        self.log.lock().unwrap().reports.clone()
    }
    /// Has the process ended?
    pub fn exited(&mut self) -> Option<String> {
        self.child.try_wait().ok().flatten().map(|s| s.to_string())
    }
    pub fn check_alive(&mut self) -> Res<()> {
        if let Some(s) = self.exited() {
            let r = self.reports();
            return Err(Fail::V(format!("the broker process has ended: {}\n{}", s, r.first().cloned().unwrap_or_else(|| self.tail(10)))));
        }
        Ok(())
    }
    pub fn interrupt(&self) {
        crate::sys::signal(self.pid, 2);
    }
    /// Wait for the process to end
    pub fn wait_exit(&mut self, limit: Duration) -> Option<std::process::ExitStatus> {
        let end = Instant::now() + limit;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Some(s);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }

    // ---------------------------------------------------------------- /proc
    /// Sockets among the descriptors
    pub fn sockets(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.pid))
            .map(|d| {
                d.flatten()
                    .filter(|e| std::fs::read_link(e.path()).map(|p| p.to_string_lossy().starts_with("socket:")).unwrap_or(false))
                    .count()
            })
            .unwrap_or(0)
    }
    pub fn rss_kb(&self) -> u64 {
        std::fs::read_to_string(format!("/proc/{}/status", self.pid))
            .ok()
            .and_then(|s| s.lines().find(|l| l.starts_with("VmRSS")).and_then(|l| l.split_whitespace().nth(1).and_then(|x| x.parse().ok())))
            .unwrap_or(0)
    }
    /// CPU time used so far, milliseconds
    pub fn cpu_ms(&self) -> u64 {
        std::fs::read_to_string(format!("/proc/{}/stat", self.pid))
            .ok()
            .and_then(|s| {
                let r = s.rsplit(") ").next()?.to_string();
                let f: Vec<&str> = r.split_whitespace().collect();
                Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?) * 10)
            })
            .unwrap_or(0)
    }
}

impl Drop for Broker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let c = self.ctl;
        let mut t = crate::report::SHIM.lock().unwrap();
        for (k, n) in [
            ("broker_reads", c.recv_calls.load(SeqCst)),
            ("broker_writes", c.send_calls.load(SeqCst)),
            ("broker_short_writes", c.short_sends.load(SeqCst)),
            ("broker_preemptions_injected", c.preempts.load(SeqCst)),
            ("broker_accepts", c.accepts.load(SeqCst)),
            ("broker_accept_failures_injected", c.accept_fails.load(SeqCst)),
            ("broker_accepts_out_of_descriptors", c.accept_emfile.load(SeqCst)),
            ("broker_processes", 1),
        ] {
            if n > 0 {
                *t.entry(k.to_string()).or_insert(0) += n;
            }
        }
        drop(t);
        let _ = std::fs::remove_file(&self.ctl_path);
        unsafe {
            crate::sys::munmap(self.ctl as *const Ctl as *mut u8, 4096);
        }
    }
}

// ------------------------------------------------------------------ rounds

/// A worker with a broker of its own
pub struct Worker {
    pub broker: Option<Broker>,
    pub index: usize,
    pub fresh: bool,
}

impl Worker {
    pub fn broker(&mut self, o: &Opts) -> Res<&mut Broker> {
        if self.broker.is_none() {
            self.broker = Some(Broker::start(o)?);
            self.fresh = true;
        }
        Ok(self.broker.as_mut().unwrap())
    }
    pub fn restart(&mut self) {
        self.broker = None;
    }
}

/// Rounds 0, 1, 2, ... on several workers until the time is up (at least `min` rounds, whatever
/// that takes) or something fails. Each round has its own generator, so round numbers are replayable.
pub fn rounds(
    ctx: &Ctx,
    workers: usize,
    time: Duration,
    min: u64,
    f: impl Fn(&Ctx, &mut Worker, u64, &mut Rng) -> Res<()> + Sync,
) {
    let next = AtomicU64::new(std::env::var("VH_ROUND").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    let only = std::env::var("VH_ROUND").is_ok();
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for index in 0..workers {
            let (f, next) = (&f, &next);
            s.spawn(move || {
                let mut w = Worker { broker: None, index, fresh: true };
                loop {
                    let r = next.fetch_add(1, SeqCst);
                    if ctx.stopped() || (t0.elapsed() > time && r >= min) || (only && index > 0) {
                        break;
                    }
                    let mut rng = Rng::new(ctx.seed, r);
                    let res = f(ctx, &mut w, r, &mut rng).and_then(|()| match w.broker.as_mut() {
                        Some(b) => b.check_alive(),
                        None => Ok(()),
                    });
                    if let Err(e) = res {
                        let mut extra = String::new();
                        if let Some(b) = &mut w.broker {
                            if b.exited().is_none() {
                                std::thread::sleep(Duration::from_millis(300));
                            }
                            extra.push_str(&format!("broker process {} at {}\n", b.pid, b.addr));
                            if let Some(s) = b.exited() {
                                extra.push_str(&format!("broker process ended: {}\n", s));
                            }
                            for p in b.reports().iter().take(3) {
                                extra.push_str(&format!("broker report:\n{}\n", p));
                            }
                            extra.push_str(&format!("broker log, last lines:\n{}\n", b.tail(80)));
                        }
                        ctx.fail(e, &format!("round {} (VH_ROUND={})", r, r), extra);
                        w.restart();
                    }
                    if only {
                        break;
                    }
                }
            });
        }
    });
}

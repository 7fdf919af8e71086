//! What a run observed, and how it ends.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub type Res<T> = Result<T, Fail>;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property does not hold: what was observed
    V(String),
    /// Nothing can be concluded from this execution
    Inc(String),
}

impl Fail {
    pub fn ctx(self, s: &str) -> Fail {
        match self {
            Fail::V(m) => Fail::V(format!("{}: {}", s, m)),
            Fail::Inc(m) => Fail::Inc(format!("{}: {}", s, m)),
        }
    }
}

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::report::Fail::V(format!($($a)*))) };
}

static START: OnceLock<Instant> = OnceLock::new();

/// Nanoseconds since the harness started
pub fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_nanos() as u64
}

// ------------------------------------------------------------------ is this machine keeping up?

static BEATS: Mutex<Vec<(u64, u64)>> = Mutex::new(Vec::new());

/// A thread that only sleeps 20 ms at a time; how late it wakes up tells whether silence on a
/// connection may be blamed on the broker.
pub fn start_heartbeat() {
    now();
    std::thread::spawn(|| loop {
        let a = now();
        std::thread::sleep(Duration::from_millis(20));
        let late = (now() - a).saturating_sub(20_000_000);
        let mut b = BEATS.lock().unwrap();
        if late > 50_000_000 {
            b.push((a, late));
            if b.len() > 1000 {
                b.remove(0);
            }
        }
    });
}

/// The longest the heartbeat has been late since `since` (ns)
pub fn lateness(since: u64) -> u64 {
    BEATS.lock().unwrap().iter().filter(|b| b.0 + b.1 >= since).map(|b| b.1).max().unwrap_or(0)
}

/// A violation that rests on silence does not count on a machine that stalls itself
pub fn silence(f: Fail) -> Fail {
    let since = now().saturating_sub(30_000_000_000);
    match f {
        Fail::V(m) if lateness(since) > 4_000_000_000 => Fail::Inc(format!("machine stalled: {}", m)),
        f => f,
    }
}

// ------------------------------------------------------------------ the run

/// What the shim counted in all brokers of the run
pub static SHIM: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub dir: String,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub evaluations: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<(String, String)>>,
    pub inconclusive: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub t0: Instant,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Seconds of workload: quick, thorough
    pub fn secs(&self, q: u64, t: u64) -> Duration {
        if let Ok(s) = std::env::var("VH_SECS") {
            if let Ok(n) = s.parse() {
                return Duration::from_secs(n);
            }
        }
        Duration::from_secs(if self.thorough() { t } else { q })
    }
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.split_whitespace().collect::<Vec<_>>().join(" ");
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.split_whitespace().collect::<Vec<_>>().join(" "));
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// One case was judged. `key` tells distinct ones apart; None: it was trivial.
    pub fn eval(&self, key: Option<u64>) {
        self.evaluations.fetch_add(1, Relaxed);
        if let Some(k) = key {
            self.distinct.lock().unwrap().insert(k);
        }
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let mut x = f();
            if x.len() > 900 {
                let mut n = 900;
                while !x.is_char_boundary(n) {
                    n -= 1;
                }
                x.truncate(n);
                x.push_str("...");
            }
            s.push(x);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    pub fn fail(&self, f: Fail, what: &str, extra: String) {
        match f {
            Fail::V(m) => {
                self.violations.lock().unwrap().push((format!("{}\n  {}", what, m), extra));
                self.stop.store(true, SeqCst);
            }
            Fail::Inc(m) => {
                let mut v = self.inconclusive.lock().unwrap();
                v.push(format!("{}: {}", what, m));
                // do not go on for ever without results
                if v.len() > 20 {
                    self.stop.store(true, SeqCst);
                }
            }
        }
    }

    pub fn finish(&self) -> i32 {
        for (k, v) in SHIM.lock().unwrap().iter() {
            self.count(k, *v);
        }
        let viol = self.violations.lock().unwrap();
        let inc = self.inconclusive.lock().unwrap();
        let ev = self.evaluations.load(SeqCst);
        let di = self.distinct.lock().unwrap().len();
        let wall = self.t0.elapsed().as_secs_f64();
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            js(&self.prop),
            js(&self.tier),
            self.seed
        ));
        j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", ev, di));
        j.push_str(&format!("  \"rule\": {},\n", js(&self.rule.lock().unwrap())));
        for (k, v) in self.counters.lock().unwrap().iter() {
            j.push_str(&format!("  {}: {},\n", js(k), v));
        }
        j.push_str(&format!("  \"inconclusive\": {},\n", inc.len()));
        let s: Vec<String> = self.samples.lock().unwrap().iter().map(|x| js(x)).collect();
        j.push_str(&format!("  \"samples\": [\n   {}\n  ]\n }},\n", s.join(",\n   ")));
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|x| js(x)).collect();
        j.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", a.join(", "), wall, viol.len()));
        let path = format!("{}/evidence/{}.json", self.dir, self.prop);
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
        if let Err(e) = std::fs::write(&path, j) {
            eprintln!("cannot write {}: {}", path, e);
            return 2;
        }
        for i in inc.iter() {
            println!("inconclusive: {}", i.lines().take(25).collect::<Vec<_>>().join("\n    "));
        }
        println!(
            "{} {} seed {}: {} evaluations, {} distinct non-trivial, {} inconclusive, {:.1} s",
            self.prop,
            self.tier,
            self.seed,
            ev,
            di,
            inc.len(),
            wall
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {}: {}", k, v);
        }
        if let Some((m, extra)) = viol.first() {
            let _ = std::fs::create_dir_all(format!("{}/replays", self.dir));
            let rp = format!("replays/{}-{}-{}.txt", self.prop, self.tier, self.seed);
            let text = format!(
                "property {} tier {} seed {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./run.sh {}\n\n{}\n\n{}\n",
                self.prop, self.tier, self.seed, self.seed, self.tier, self.prop, m, extra
            );
            let _ = std::fs::write(format!("{}/{}", self.dir, rp), text);
            println!("{}", m);
            println!("VIOLATION property={} replay={}", self.prop, rp);
            return 1;
        }
        if ev == 0 || di < 2 {
            println!("nothing was observed");
            return 2;
        }
        if inc.len() > 20 {
            println!("too much was inconclusive");
            return 2;
        }
        0
    }
}

/// A JSON string
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

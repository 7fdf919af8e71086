//! Ends of connections, and what is left of them.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};

/// A client without a thread of its own
struct Lite {
    s: TcpStream,
    buf: Vec<u8>,
}

impl Lite {
    fn open(addr: SocketAddr) -> Res<Lite> {
        let s = tcp(addr).map_err(|e| silence(Fail::V(format!("cannot connect to the broker: {}", e))))?;
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(WAIT));
        let _ = s.set_write_timeout(Some(WAIT));
        Ok(Lite { s, buf: vec![] })
    }
    fn put(&mut self, b: &[u8]) -> Res<()> {
        self.s.write_all(b).map_err(|e| silence(Fail::V(format!("cannot send to the broker: {}", e))))
    }
    fn next(&mut self) -> Res<SPkt> {
        let mut tmp = [0u8; 8192];
        crate::sys::quick_ack(self.s.as_raw_fd());
        loop {
            match parse_server(&self.buf) {
                Err(e) => return Err(Fail::V(format!("not MQTT: {}", e))),
                Ok(Some((p, n))) => {
                    self.buf.drain(..n);
                    return Ok(p);
                }
                Ok(None) => {}
            }
            match self.s.read(&mut tmp) {
                Ok(0) => return Err(Fail::V("the broker closed the connection".into())),
                Ok(n) => {
                    crate::sys::quick_ack(self.s.as_raw_fd());
                    self.buf.extend_from_slice(&tmp[..n])
                }
                Err(e) => return Err(silence(Fail::V(format!("nothing from the broker: {}", e)))),
            }
        }
    }
    /// Take packets until the answer wanted
    fn until(&mut self, f: impl Fn(&SPkt) -> bool) -> Res<()> {
        while !f(&self.next()?) {}
        Ok(())
    }
    fn closed(&mut self, what: &str) -> Res<()> {
        let mut tmp = [0u8; 8192];
        let end = Instant::now() + Duration::from_secs(10);
        let _ = self.s.set_read_timeout(Some(Duration::from_secs(10)));
        loop {
            match self.s.read(&mut tmp) {
                Ok(0) => return Ok(()),
                Ok(_) if Instant::now() < end => {}
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::BrokenPipe => return Ok(()),
                _ => return Err(silence(Fail::V(format!("{}: the broker has not closed its side within 10 s", what)))),
            }
        }
    }
}

const KINDS: &[&str] = &[
    "DISCONNECT",
    "close",
    "half-close",
    "reset",
    "malformed packet",
    "takeover",
    "close with data unread",
    "reset while messages wait",
    "half-close while messages wait",
    "close inside a packet",
    "refused CONNECT",
    "no CONNECT",
    "persistent session, again and again",
    "subscribe and unsubscribe",
    "publish",
    "second CONNECT",
    "half-close before CONNECT",
    "hundreds of filters",
    "hundreds of filters, takeover",
    "persistent session, then a clean one",
    "half-close inside a packet",
    "persistent session with the same filters",
];

/// The beginning of some packet, often a very short one
fn unfinished(long: &str, rng: &mut Rng) -> Vec<u8> {
    let b = match rng.below(9) {
        0 => subscribe(9, &[(long, 1)]),
        1 => unsubscribe(9, &[long]),
        2 => publish(b"a", long.as_bytes(), 1, 3, false, false),
        3 => pingreq(),
        4 => disconnect(),
        5 => puback(7),
        6 => pubrel(7),
        7 => Connect::new(long).build(),
        _ => publish(b"a", long.as_bytes(), 0, 0, false, false),
    };
    let most = if rng.pct(60) { 5 } else { b.len() - 1 };
    b[..rng.range(1, most.min(b.len() - 1))].to_vec()
}

struct Run {
    addr: SocketAddr,
    /// with small socket buffers on both sides
    small: bool,
    kind: &'static str,
    long: String,
    n: u64,
    prev: Option<Lite>,
    one: Option<Lite>,
}

impl Run {
    fn connect(&mut self, id: &str, clean: bool) -> Res<Lite> {
        let mut l = Lite::open(self.addr)?;
        l.put(&Connect::new(id).clean(clean).varied(0).build())?;
        match l.next()? {
            SPkt::ConnAck { code: 0, .. } => Ok(l),
            p => Err(Fail::V(format!("expected CONNACK, got {}", p.brief()))),
        }
    }

    fn filters(&self, rng: &mut Rng) -> Vec<(String, u8)> {
        let mut v = vec![];
        for _ in 0..rng.range(1, 3) {
            let q = rng.below(3) as u8;
            let n = self.n;
            v.push((
                match rng.below(10) {
                    8 => format!("$d{}/{}/+", n, self.long),
                    9 => format!("u/$x/{}{}//", n, self.long),
                    0 => format!("common/+/{}", n % 5),
                    1 => format!("$share/g{}/u/{}", n, self.long),
                    2 => format!("$share/g/{}/{}/x", self.long, n),
                    3 => format!("u/{}/{}/+", n, self.long),
                    4 => format!("u/{}/#", n),
                    5 => format!("{}{}/#", self.long, n),
                    6 => format!("u/+/{}/{}", n, self.long),
                    _ => format!("u/{}/{}/{}", n, self.long, n),
                },
                q,
            ));
        }
        v
    }

    /// One connection from beginning to end
    fn cycle(&mut self, rng: &mut Rng) -> Res<()> {
        self.n += 1;
        let n = self.n;
        match self.kind {
            "refused CONNECT" => {
                let mut l = Lite::open(self.addr)?;
                let mut c = Connect::new(&format!("{}{}", self.long, n));
                match n % 4 {
                    0 => c.level = 5,
                    1 => c.flags = Some(0x03),
                    2 => {
                        c.clean = false;
                        c.id.clear()
                    }
                    _ => c.proto = b"MQTX".to_vec(),
                }
                l.put(&c.build())?;
                return l.closed(self.kind);
            }
            "no CONNECT" => {
                let mut l = Lite::open(self.addr)?;
                if n % 3 == 0 {
                    l.put(&pingreq())?;
                    return l.closed(self.kind);
                } else if n % 3 == 1 {
                    l.put(&Connect::new(&self.long).build()[..20])?;
                }
                return Ok(());
            }
            "half-close before CONNECT" => {
                let mut l = Lite::open(self.addr)?;
                if n % 2 == 0 {
                    let b = Connect::new(&self.long).build();
                    l.put(&b[..if n % 4 == 0 { 20 } else { rng.range(1, 5) }])?;
                }
                let _ = l.s.shutdown(Shutdown::Write);
                return l.closed(self.kind);
            }
            "subscribe and unsubscribe" => {
                if self.one.is_none() {
                    self.one = Some(self.connect("one", true)?);
                }
                let fs = self.filters(rng);
                let l = self.one.as_mut().unwrap();
                let names: Vec<&String> = fs.iter().map(|f| &f.0).collect();
                let mut b = subscribe(5, &fs);
                if n % 3 == 0 {
                    b.extend(subscribe(5, &fs));
                }
                b.extend(unsubscribe(6, &names));
                if n % 4 == 0 {
                    b.extend(unsubscribe(6, &names));
                    b.extend(pingreq());
                    l.put(&b)?;
                    return l.until(|p| *p == SPkt::PingResp);
                }
                l.put(&b)?;
                return l.until(|p| *p == SPkt::UnsubAck(6));
            }
            k if k.starts_with("hundreds") => {
                let take = k.ends_with("takeover");
                let mut l = self.connect(&if take { "same".to_string() } else { format!("h{}", n) }, true)?;
                if let Some(mut old) = self.prev.take() {
                    old.closed("takeover")?;
                }
                let many = *rng.pick(&[120, 300, 500, 1400, 2200]);
                let below = *rng.pick(&["u/", "", "u/+/", "$share/g/"]);
                let fs: Vec<(String, u8)> =
                    (0..many).map(|i| (format!("{}{}{}{}{}", below, n, if below.is_empty() { "-" } else { "/" }, i, ["", "/+", "/#", "/x/y"][i % 4]), 1)).collect();
                for part in fs.chunks(rng.range(20, 500)) {
                    l.put(&subscribe(5, part))?;
                    l.until(|p| matches!(p, SPkt::SubAck(5, _)))?;
                }
                if take {
                    self.prev = Some(l);
                    return Ok(());
                }
                if n % 2 == 0 {
                    l.put(&disconnect())?;
                    return l.closed(self.kind);
                }
                return Ok(());
            }
            "publish" => {
                if self.one.is_none() {
                    let mut l = self.connect("one", true)?;
                    l.put(&subscribe(5, &[("one/+", 2)]))?;
                    l.until(|p| matches!(p, SPkt::SubAck(5, _)))?;
                    self.one = Some(l);
                }
                let l = self.one.as_mut().unwrap();
                let q = (n % 3) as u8;
                let pid = (n % 65535) as u16 + 1;
                l.put(&publish(format!("one/{}{}", self.long, n).as_bytes(), self.long.as_bytes(), q, pid, false, n % 5 == 0))?;
                // both halves of the handshake, in whatever order
                let (mut own, mut theirs) = (q == 0, false);
                while !own || !theirs {
                    match l.next()? {
                        SPkt::PubAck(_) | SPkt::PubComp(_) => own = true,
                        SPkt::PubRec(i) => l.put(&pubrel(i))?,
                        SPkt::Publish(m) if m.qos == 2 => l.put(&pubrec(m.pid))?,
                        SPkt::Publish(m) => {
                            if m.qos == 1 {
                                l.put(&puback(m.pid))?;
                            }
                            theirs = true;
                        }
                        SPkt::PubRel(i) => {
                            l.put(&pubcomp(i))?;
                            theirs = true;
                        }
                        _ => {}
                    }
                }
                return Ok(());
            }
            _ => {}
        }
        if self.kind == "persistent session with the same filters" {
            let mut l = self.connect("same", false)?;
            if let Some(mut old) = self.prev.take() {
                old.closed("takeover")?;
            }
            let fs: Vec<(String, u8)> = (0..25).map(|i| (format!("u/{}{}/{}", ["", "+/"][i % 2], i, self.long), (i % 3) as u8)).collect();
            if n % 3 == 1 {
                l.put(&subscribe(5, &fs))?;
                l.until(|p| matches!(p, SPkt::SubAck(5, _)))?;
            }
            l.put(&publish(format!("u/4/{}", self.long).as_bytes(), b"x", 1, 1, false, false))?;
            l.until(|p| *p == SPkt::PubAck(1))?;
            match rng.below(4) {
                0 => l.put(&disconnect())?,
                1 => crate::sys::abort(l.s.as_raw_fd()),
                2 => self.prev = Some(l),
                _ => {}
            }
            return Ok(());
        }
        if self.kind.starts_with("persistent session, then") {
            // what the first one leaves has to go when the clean one comes
            let clean = n % 2 == 0;
            let mut l = self.connect("same", clean)?;
            if let Some(mut old) = self.prev.take() {
                old.closed("takeover")?;
            }
            let mut fs = self.filters(rng);
            fs.extend((0..rng.below(20)).map(|i| (format!("u/{}/{}", n, i), 1)));
            l.put(&subscribe(5, &fs))?;
            l.until(|p| matches!(p, SPkt::SubAck(5, _)))?;
            match rng.below(4) {
                0 => l.put(&disconnect())?,
                1 => crate::sys::abort(l.s.as_raw_fd()),
                2 => self.prev = Some(l),
                _ => {}
            }
            return Ok(());
        }
        let persistent = self.kind.starts_with("persistent");
        let take = self.kind == "takeover";
        let id = if persistent || take { "same".to_string() } else { format!("{}{}", self.long, n) };
        let mut l = self.connect(&id, !persistent)?;
        if let Some(mut old) = self.prev.take() {
            old.closed("takeover")?;
        }
        let fs = self.filters(rng);
        l.put(&subscribe(5, &fs))?;
        l.until(|p| matches!(p, SPkt::SubAck(5, _)))?;
        if persistent {
            let names: Vec<&String> = fs.iter().map(|f| &f.0).collect();
            l.put(&unsubscribe(6, &names))?;
            l.until(|p| *p == SPkt::UnsubAck(6))?;
        }
        // some traffic
        l.put(&subscribe(7, &[(format!("me/{}", n), 1)]))?;
        l.until(|p| matches!(p, SPkt::SubAck(7, _)))?;
        let waits = self.kind.contains("wait") || self.kind.contains("unread");
        if self.small {
            crate::sys::set_buf(l.s.as_raw_fd(), crate::sys::SO_RCVBUF, 4096);
        }
        let count = if self.small { (300_000 / self.long.len()).max(7) } else if waits { 30 } else { 1 };
        for i in 0..count as u16 {
            l.put(&publish(format!("me/{}", n).as_bytes(), self.long.as_bytes(), 1, i + 1, false, false))?;
        }
        if !waits {
            l.until(|p| matches!(p, SPkt::Publish(_)))?;
        } else {
            l.until(|p| matches!(p, SPkt::PubAck(1)))?;
        }
        if persistent {
            l.put(&unsubscribe(8, &[format!("me/{}", n)]))?;
            l.until(|p| *p == SPkt::UnsubAck(8))?;
        }
        match self.kind {
            "DISCONNECT" => {
                l.put(&disconnect())?;
                l.closed(self.kind)
            }
            "half-close" | "half-close while messages wait" => {
                let _ = l.s.shutdown(Shutdown::Write);
                l.closed(self.kind)
            }
            "reset" | "reset while messages wait" => {
                crate::sys::abort(l.s.as_raw_fd());
                Ok(())
            }
            "malformed packet" => {
                l.put(&[0xf0, 0])?;
                l.closed(self.kind)
            }
            "second CONNECT" => {
                l.put(&Connect::new("again").build())?;
                l.closed(self.kind)
            }
            "close inside a packet" => l.put(&unfinished(&self.long, rng)),
            "half-close inside a packet" => {
                l.put(&unfinished(&self.long, rng))?;
                let _ = l.s.shutdown(Shutdown::Write);
                l.closed(self.kind)
            }
            "takeover" => {
                self.prev = Some(l);
                Ok(())
            }
            k if k.starts_with("persistent") => {
                match rng.below(4) {
                    0 => l.put(&disconnect())?,
                    1 => crate::sys::abort(l.s.as_raw_fd()),
                    2 => self.prev = Some(l),
                    _ => {}
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

/// The broker's sockets have to come down to `want`
fn sockets(b: &Broker, want: usize, what: &str) -> Res<()> {
    let end = Instant::now() + Duration::from_secs(10);
    loop {
        let n = b.sockets();
        if n <= want {
            return Ok(());
        }
        if Instant::now() > end {
            return Err(silence(Fail::V(format!("{}: 10 s later the broker still has {} sockets open, {} are in use", what, n, want))));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// With nothing to do, the broker must not be busy
fn idle(b: &Broker, what: &str) -> Res<u64> {
    let mut all = vec![];
    for _ in 0..6 {
        let a = b.cpu_ms();
        std::thread::sleep(Duration::from_millis(150));
        let ms = b.cpu_ms() - a;
        if ms <= 60 {
            return Ok(ms);
        }
        all.push(ms);
        std::thread::sleep(Duration::from_millis(300));
    }
    Err(Fail::V(format!("{}: with all connections ended the broker used {:?} ms of CPU in intervals of 150 ms", what, all)))
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let kind = KINDS[(r % KINDS.len() as u64) as usize];
    let env = vec![("MALLOC_ARENA_MAX".to_string(), "1".to_string()), ("MALLOC_TRIM_THRESHOLD_".to_string(), "65536".to_string())];
    // small buffers: what waits for a client waits in the broker
    let waits = kind.contains("wait") || kind.contains("unread");
    let sndbuf = (waits && (!kind.starts_with("half") || rng.pct(50))).then_some(4096);
    let b = w.broker(&Opts { env, sndbuf, ..Default::default() })?;
    let addr = b.addr;
    // clients that stay
    let stay = Client::simple(addr, "stay")?;
    stay.sub(&[("u/#", 1), ("common/+/1", 2), ("common/+/#", 0), ("s/x", 1), ("+/+/never", 0)])?;
    if rng.pct(60) {
        // the levels above those that come and go are subscribed to as well
        stay.sub(&[("u", 1), ("u/+", 0), ("u/$x", 1), ("common", 0), ("common/+", 0), ("$share/g", 1)])?;
    }
    let pubc = Client::simple(addr, "pub")?;
    let mut run = Run { addr, small: sndbuf.is_some(), kind, long: "l".repeat(if sndbuf.is_some() { 40000 } else { *rng.pick(&[500, 3000, 12000]) }), n: 0, prev: None, one: None };
    let base = b.sockets();
    let batches = ctx.n(7, 22);
    let limit = ctx.secs(5, 40);
    let mut rss = vec![];
    let mut cycles = vec![];
    for batch in 0..batches {
        let t = Instant::now();
        let n0 = run.n;
        while t.elapsed() < limit / batches as u32 && run.n - n0 < 3000 {
            run.cycle(rng).map_err(|f| f.ctx(&format!("{} (cycle {})", kind, run.n)))?;
        }
        let open = run.prev.is_some() as usize + run.one.is_some() as usize;
        sockets(b, base + open, kind)?;
        idle(b, kind)?;
        // whoever stays is not affected
        pubc.publish("s/x", format!("b{}", batch).as_bytes(), 1)?;
        stay.messages_until(format!("b{}", batch).as_bytes()).map_err(|f| f.ctx(kind))?;
        pubc.answer()?;
        stay.ping()?;
        rss.push(b.rss_kb());
        cycles.push(run.n);
    }
    // growth that goes on, batch after batch
    let half = batches / 2;
    let (a, z) = (rss[half - 1], rss[batches - 1]);
    let dc = (cycles[batches - 1] - cycles[half - 1]).max(1);
    let grew = z.saturating_sub(a);
    let steady = (half..batches).filter(|&i| rss[i] > rss[i - 1] + 100).count();
    if std::env::var("VH_RSS").is_ok() {
        println!("{} long {}: rss {:?} cycles {:?}", kind, run.long.len(), rss, cycles);
    }
    if grew > 1500 && steady >= batches - half - 1 && grew * 1024 / dc > 50 {
        return Err(Fail::V(format!(
            "{}: resident memory grows with every batch of connections: {:?} KiB after {:?} cycles (about {} bytes per cycle)",
            kind,
            rss,
            cycles,
            grew * 1024 / dc
        )));
    }
    ctx.count(&format!("cycles_{}", kind.replace([',', '-'], "").replace(' ', "_")), run.n);
    ctx.max("largest_growth_kb", grew);
    for i in 0..run.n {
        ctx.eval(Some(hash(kind.as_bytes()) ^ r << 32 ^ i));
    }
    ctx.sample(|| format!("{}: resident memory {:?} KiB after {:?} cycles", kind, rss, cycles));
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one connection (or subscribe/unsubscribe or publish cycle) of one of 22 kinds, with long client
         identifiers and filters. After every batch: the broker's sockets are back at the number in use (10 s), its CPU
         time stands still, clients that stay still receive; in the end, resident memory must not have grown by more
         than 1.5 MB in steady steps over the second half of the batches. Ends the client can see are awaited every time.",
    );
    ctx.assume("leaks below about 1.5 MB over the cycles of a run are not seen");
    let n = KINDS.len() as u64;
    rounds(ctx, 6, ctx.secs(1, 300), n, round);
}

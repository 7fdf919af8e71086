//! Keep-alive, on a clock that runs faster.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::Duration;

#[derive(Clone, Debug)]
enum Case {
    /// keep-alive, packets sent at 0.9 K before falling silent, virtual seconds to wait before the
    /// CONNECT, whether the broker sends it messages meanwhile
    Silent { k: u16, before: usize, wait: f64, receiving: bool, partial: bool, joined: bool, resumed: bool, hoard: bool },
    /// keep-alive, what it sends, how long between packets (in K), how often
    /// each time the rest of one packet and the beginning of the next (halves), or not reading what
    /// megabytes wait for it (deaf)
    Active { k: u16, with: &'static str, gap: f64, n: usize, halves: bool, deaf: bool },
    /// neither sends nor reads, while megabytes wait for it
    Deaf { k: u16 },
    /// keep-alive 0: silent for so many virtual seconds
    Zero { secs: f64 },
    /// no CONNECT: what is sent instead, whether byte by byte
    Nothing { what: &'static str },
}

enum Out {
    Fine,
    /// the wrong time, which the machine may be to blame for; counts if it stays so
    Late(String),
    /// this machine was too slow to be a client that keeps its promise
    Skip,
}

const KINDS: &[&str] = &["PINGREQ", "PUBLISH 0", "PUBLISH 1", "PUBLISH 2", "SUBSCRIBE", "UNSUBSCRIBE", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "anything"];

fn packet(kind: &str, i: usize) -> Vec<u8> {
    let id = 100 + i as u16;
    match kind {
        "PINGREQ" => pingreq(),
        "PUBLISH 0" => publish(b"ka/x", b"0", 0, 0, false, false),
        "PUBLISH 1" => publish(b"ka/x", b"1", 1, id, false, false),
        "PUBLISH 2" => publish(b"ka/x", b"2", 2, id, false, false),
        "SUBSCRIBE" => subscribe(id, &[("ka/never", 1)]),
        "UNSUBSCRIBE" => unsubscribe(id, &["ka/never"]),
        "PUBACK" => puback(id),
        "PUBREC" => pubrec(id),
        "PUBREL" => pubrel(id),
        "PUBCOMP" => pubcomp(id),
        _ => packet(KINDS[i % (KINDS.len() - 1)], i),
    }
}

struct Env {
    addr: SocketAddr,
    f: f64,
    p: Mutex<Client>,
    tag: String,
}

impl Env {
    fn nap(&self, virt: f64) {
        std::thread::sleep(Duration::from_secs_f64((virt / self.f).max(0.0)));
    }
    fn virt(&self, ns: u64) -> f64 {
        ns as f64 / 1e9 * self.f
    }
    /// How late, in virtual seconds, a correct broker may seem to be
    fn slack(&self) -> f64 {
        0.4 * self.f
    }
}

fn closed_at(c: &Client, limit: Duration) -> Option<u64> {
    c.wait(limit, |s| s.closed.map(|x| x.1))
}

/// Accepted? `None`: too slow for the minute a connection has for its CONNECT
fn accepted(e: &Env, c: &Client, t0: u64) -> Res<Option<()>> {
    match c.expect_connack() {
        Ok(_) => Ok(Some(())),
        Err(_) if e.virt(now() - t0) > 55.0 => Ok(None),
        Err(f) => Err(f),
    }
}

/// `None` instead of a failure that the time explains: more than `limit` virtual seconds since `t0`
fn in_time<T>(e: &Env, t0: u64, limit: f64, r: Res<T>) -> Res<Option<T>> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(_) if e.virt(now() - t0) > limit => Ok(None),
        Err(f) => Err(f),
    }
}

fn run_case(e: &Env, case: &Case, id: &str) -> Res<Out> {
    let so = SockOpts::default();
    match case {
        Case::Silent { k, before, wait, receiving, partial, joined, resumed, hoard } => {
            let kk = *k as f64;
            if *resumed {
                let t0 = now();
                let Some(c) = in_time(e, t0, 55.0, Client::connect(e.addr, &Connect::new(id).clean(false).keepalive(0), &so))? else {
                    return Ok(Out::Skip);
                };
                c.sub(&[(format!("res/{}", id), 1)])?;
                c.send(&disconnect())?;
                c.expect_closed(WAIT)?;
            }
            let t0 = now();
            let c = Client::open(e.addr, id, &so)?;
            e.nap(*wait);
            let mut sent = now();
            let mut b = Connect::new(id).keepalive(*k).clean(!*resumed).varied(0).build();
            if *joined {
                // the beginning of another packet comes along
                b.extend(&publish(b"ka/x", b"unfinished", 1, 9, false, false)[..(*k % 17) as usize + 1]);
            }
            c.send(&b).or_else(|f| if e.virt(now() - t0) > 55.0 { Ok(()) } else { Err(f) })?;
            if accepted(e, &c, t0)?.is_none() {
                return Ok(Out::Skip);
            }
            if *hoard {
                // thousands of messages it does not acknowledge, hundreds of its own it does not release
                let n = 2600;
                if in_time(e, sent, kk, c.sub(&[(format!("rx/{}", id), 1 + (*k % 2) as u8)]))?.is_none() {
                    return Ok(Out::Skip);
                }
                for _ in 0..n / 100 {
                    let mut b = vec![];
                    for j in 0..100 {
                        b.extend(publish(format!("rx/{}", id).as_bytes(), b"h", 1, 1 + j, false, false));
                    }
                    e.p.lock().unwrap().send(&b)?;
                }
                let t = now();
                for j in 0..300 {
                    if in_time(e, t, kk, c.send(&publish(b"ka/x", b"open", 2, 1 + j, false, false)))?.is_none() {
                        return Ok(Out::Skip);
                    }
                }
                if c.wait(WAIT, |s| if s.msgs.len() >= n { Some(true) } else { s.closed.map(|_| false) }) != Some(true) {
                    return Ok(Out::Skip);
                }
                let t = now();
                sent = now();
                c.send(&pingreq())?;
                if c.wait(WAIT, |s| s.answers.iter().any(|a| a.pkt == SPkt::PingResp).then_some(())).is_none() || e.virt(now() - t) > kk {
                    return Ok(Out::Skip);
                }
            }
            if *receiving {
                sent = now();
                if in_time(e, sent, kk, c.sub(&[(format!("rx/{}", id), 0)]))?.is_none() {
                    return Ok(Out::Skip);
                }
            }
            for i in 0..*before {
                e.nap(kk * 0.9);
                let t = now();
                if e.virt(t - sent) > kk {
                    return Ok(Out::Skip);
                }
                let before = sent;
                sent = now();
                if in_time(e, before, kk, c.send(&packet("anything", i)))?.is_none() {
                    return Ok(Out::Skip);
                }
            }
            if *partial {
                // not a packet
                let _ = c.try_send(&publish(b"ka/x", b"unfinished", 1, 9, false, false)[..7]);
            }
            let after = now();
            let due = Duration::from_secs_f64((1.5 * kk + e.slack()) / e.f);
            let end = closed_at(&c, Duration::ZERO).or_else(|| {
                if *receiving {
                    // it gets something all the time, but sends nothing
                    for _ in 0..20 {
                        let _ = e.p.lock().unwrap().publish(format!("rx/{}", id), b"x", 0);
                        if let Some(t) = closed_at(&c, due / 20) {
                            return Some(t);
                        }
                    }
                }
                closed_at(&c, due * 3 + Duration::from_secs(2))
            });
            match end {
                None => Ok(Out::Late(format!("{:?}: still open {:.1} s after its last packet", case, e.virt(now() - after)))),
                Some(t) if e.virt(t.saturating_sub(sent)) < kk - 0.01 => {
                    c.bad(format!("{:?}: closed {:.2} s after its last packet, before its keep-alive was over", case, e.virt(t.saturating_sub(sent))))
                }
                Some(t) if e.virt(t.saturating_sub(after)) > 1.5 * kk + e.slack() => {
                    Ok(Out::Late(format!("{:?}: closed {:.1} s after its last packet, {:.1} s were due", case, e.virt(t - after), 1.5 * kk)))
                }
                Some(_) => Ok(Out::Fine),
            }
        }
        Case::Deaf { k } => {
            let kk = *k as f64;
            let t0 = now();
            let c = Client::open(e.addr, id, &SockOpts { rcvbuf: Some(4096), ..so })?;
            let mut sent = now();
            c.send(&Connect::new(id).keepalive(*k).varied(0).build()).or_else(|f| if e.virt(now() - t0) > 55.0 { Ok(()) } else { Err(f) })?;
            if accepted(e, &c, t0)?.is_none() {
                return Ok(Out::Skip);
            }
            sent = sent.max(now());
            if in_time(e, sent, kk, c.sub(&[(format!("rx/{}", id), 0)]))?.is_none() {
                return Ok(Out::Skip);
            }
            let after = now();
            c.pause(true);
            for _ in 0..4 {
                e.p.lock().unwrap().publish(format!("rx/{}", id), &vec![b'd'; 2_000_000], 0)?;
            }
            // whether the broker still holds its end is asked of the system, not of the connection
            let limit = now() + ((1.5 * kk + e.slack()) * 2.0 / e.f * 1e9) as u64 + 1_000_000_000;
            let me = c.sock.local_addr().map_err(|x| Fail::Inc(x.to_string()))?;
            loop {
                let t = now();
                let held = crate::sys::held(e.addr, me).ok_or_else(|| Fail::Inc("/proc/net/tcp cannot be read".into()))?;
                if !held {
                    // a lookup takes a while
                    if e.virt(now().saturating_sub(sent)) < kk - 0.01 {
                        return c.bad(format!("{:?}: closed {:.2} s after its last packet, before its keep-alive was over", case, e.virt(now() - sent)));
                    }
                    // a second for a last attempt to write
                    if e.virt(t.saturating_sub(after)) > 1.5 * kk + 1.0 + e.slack() {
                        return Ok(Out::Late(format!("{:?}: closed {:.1} s after its last packet, {:.1} s were due", case, e.virt(t - after), 1.5 * kk)));
                    }
                    return Ok(Out::Fine);
                }
                if t > limit {
                    return Ok(Out::Late(format!("{:?}: still open {:.1} s after its last packet", case, e.virt(t - after))));
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        Case::Active { k, with, gap, n, halves, deaf } => {
            let kk = *k as f64;
            let t0 = now();
            let so = if *deaf { SockOpts { rcvbuf: Some(100_000), auto_ack: true, ..so } } else { so };
            let c = Client::open(e.addr, id, &so)?;
            let mut last = now();
            c.send(&Connect::new(id).keepalive(*k).varied(0).build()).or_else(|f| if e.virt(now() - t0) > 55.0 { Ok(()) } else { Err(f) })?;
            if accepted(e, &c, t0)?.is_none() {
                return Ok(Out::Skip);
            }
            if *deaf {
                last = now();
                if in_time(e, last, kk, c.sub(&[(format!("rx/{}", id), 0)]))?.is_none() {
                    return Ok(Out::Skip);
                }
                c.pause(true);
                for _ in 0..5 {
                    e.p.lock().unwrap().publish(format!("rx/{}", id), &vec![b'd'; 2_000_000], 0)?;
                }
            }
            let half = packet(with, 0).len() / 2;
            if *halves {
                let _ = c.try_send(&packet(with, 0)[..half]);
            }
            for i in 0..*n {
                e.nap(kk * gap - e.virt(now() - last));
                let mut b = packet(with, i);
                if *halves {
                    b = b[half..].to_vec();
                    b.extend(&packet(with, i + 1)[..half]);
                }
                let ok = c.try_send(&b).is_ok();
                let t = now();
                if e.virt(t - last) > kk {
                    return Ok(Out::Skip);
                }
                if !ok || c.is_closed() {
                    return Ok(Out::Late(format!("{:?}: disconnected although it sent something every {:.1} s; this was packet {}", case, e.virt(t - last), i)));
                }
                last = t;
            }
            // is it still there?
            c.take_answers();
            c.pause(false);
            let mut b = if *halves { packet(with, *n)[half..].to_vec() } else { vec![] };
            b.extend(pingreq());
            if in_time(e, last, kk, c.send(&b).map_err(|f| f.ctx(&format!("{:?}", case))))?.is_none() {
                return Ok(Out::Skip);
            }
            let r = c.wait(WAIT, |s| if s.answers.iter().any(|a| a.pkt == SPkt::PingResp) { Some(true) } else { s.closed.map(|_| false) });
            if e.virt(now() - last) > kk {
                return Ok(Out::Skip);
            }
            match r {
                Some(true) => Ok(Out::Fine),
                _ => Ok(Out::Late(format!("{:?}: disconnected although it sent something all the time", case))),
            }
        }
        Case::Zero { secs } => {
            let t0 = now();
            let c = Client::open(e.addr, id, &so)?;
            c.send(&Connect::new(id).keepalive(0).varied(0).build()).or_else(|f| if e.virt(now() - t0) > 55.0 { Ok(()) } else { Err(f) })?;
            if accepted(e, &c, t0)?.is_none() {
                return Ok(Out::Skip);
            }
            if let Some(t) = closed_at(&c, Duration::from_secs_f64(secs / e.f)) {
                let _ = t;
                return c.bad(format!("{:?}: disconnected although its keep-alive is 0", case));
            }
            c.ping().map_err(|f| f.ctx(&format!("{:?}", case)))?;
            Ok(Out::Fine)
        }
        Case::Nothing { what } => {
            let t0 = now();
            let c = Client::open(e.addr, id, &so)?;
            let b = Connect::new(id).build();
            let limit = Duration::from_secs_f64((90.0 + e.slack()) / e.f);
            let end = match *what {
                "part of a CONNECT" => {
                    c.send(&b[..b.len() / 2])?;
                    closed_at(&c, limit * 3)
                }
                "a CONNECT too slow to matter" => {
                    let mut end = None;
                    for x in &b[..b.len() - 1] {
                        let _ = c.try_send(&[*x]);
                        end = closed_at(&c, limit / 10);
                        if end.is_some() {
                            break;
                        }
                    }
                    end
                }
                _ => closed_at(&c, limit * 3),
            };
            match end {
                Some(t) if e.virt(t - t0) <= 90.0 + e.slack() => Ok(Out::Fine),
                Some(t) => Ok(Out::Late(format!("{:?}: closed after {:.1} s", case, e.virt(t - t0)))),
                None => Ok(Out::Late(format!("{:?}: still open after {:.1} s", case, e.virt(now() - t0)))),
            }
        }
    }
}

/// heavy: with megabytes on their way, which keeps the machine busy, and so only with long keep-alives
fn cases(f: u32, heavy: bool, rng: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    let ks: &[u16] = match f {
        1 => &[1, 2],
        60 => &[20, 30, 45, 60, 90, 100, 130],
        1000 => &[255, 256, 300, 600, 1000, 1200],
        _ => &[15000, 21845, 32767, 32768, 43690, 43691, 65535],
    };
    for &k in ks {
        v.push(Case::Silent { k, before: 0, wait: 0.0, receiving: false, partial: rng.pct(30), joined: false, resumed: rng.pct(25), hoard: false });
        v.push(Case::Silent { k, before: 0, wait: 0.0, receiving: false, partial: false, joined: true, resumed: rng.pct(25), hoard: false });
        v.push(Case::Silent { k, before: rng.below(3), wait: 0.0, receiving: false, partial: rng.pct(30), joined: false, resumed: rng.pct(40), hoard: false });
        v.push(Case::Silent { k, before: 0, wait: 0.0, receiving: true, partial: false, joined: false, resumed: false, hoard: false });
        for _ in 0..3 {
            let gap = *rng.pick(&[0.3, 0.6, 0.8, 0.9, 0.95]);
            v.push(Case::Active { k, with: *rng.pick(KINDS), gap, n: (4.0 / gap).min(8.0) as usize, halves: false, deaf: false });
        }
    }
    if f == 60 {
        for with in KINDS {
            v.push(Case::Active { k: 60, with: *with, gap: 0.9, n: 4, halves: false, deaf: false });
        }
    }
    if f >= 60 {
        // the first minute belongs to the CONNECT; after it only the keep-alive counts
        for wait in [10.0, 40.0, 50.0] {
            if wait / f as f64 > 0.01 {
                v.push(Case::Silent { k: 120, before: 0, wait, receiving: false, partial: false, joined: rng.pct(30), resumed: false, hoard: false });
                v.push(Case::Active { k: 100, with: "PINGREQ", gap: 0.9, n: 2, halves: false, deaf: false });
            }
        }
        v.push(Case::Zero { secs: 4.0 * f as f64 });
        v.push(Case::Zero { secs: 2.0 * f as f64 });
    }
    if f == 1 || f == 60 {
        let long: &[u16] = if f == 1 { &[2] } else { &[50, 80] };
        for &k in long {
            for with in ["PINGREQ", "PUBLISH 0", "PUBLISH 1", "SUBSCRIBE", "PUBACK"] {
                v.push(Case::Active { k, with, gap: 0.85, n: 4, halves: true, deaf: false });
            }
            if heavy {
                for with in [*rng.pick(&["PINGREQ", "PUBACK"]), *rng.pick(&["PUBLISH 1", "UNSUBSCRIBE", "PUBREL"])] {
                    v.push(Case::Active { k, with, gap: 0.8, n: 4, halves: false, deaf: true });
                }
            }
        }
    }
    if heavy {
        for k in [60, 110] {
            v.push(Case::Deaf { k });
        }
        v.retain(|c| match c {
            Case::Silent { k, .. } | Case::Active { k, .. } => *k >= 50,
            _ => true,
        });
    }
    if f == 1 || f == 60 && heavy {
        v.push(Case::Silent { k: if f == 1 { 2 } else { 90 }, before: 0, wait: 0.0, receiving: false, partial: false, joined: false, resumed: false, hoard: true });
    }
    if f == 60 {
        for what in ["nothing at all", "part of a CONNECT", "a CONNECT too slow to matter"] {
            v.push(Case::Nothing { what });
        }
    }
    if f == 1 {
        v.push(Case::Zero { secs: 6.0 });
        for with in ["PINGREQ", "anything"] {
            v.push(Case::Active { k: 1, with, gap: 0.7, n: 6, halves: false, deaf: false });
        }
    }
    // 1.5 K of a short keep-alive would drown in the slack
    v.retain(|c| match c {
        Case::Silent { k, .. } | Case::Active { k, .. } => *k as f64 >= 0.3 * f as f64,
        _ => true,
    });
    v
}

fn publisher(addr: SocketAddr, f: u32, so: &SockOpts) -> Res<Client> {
    // on the fastest clock the minute for the CONNECT is three milliseconds
    for _ in 0..50 {
        let t0 = now();
        match Client::connect(addr, &Connect::new("publisher"), so) {
            Err(_) if (now() - t0) as f64 / 1e9 * f as f64 > 55.0 => continue,
            r => return r,
        }
    }
    Err(Fail::Inc("the publisher is too slow for this clock".into()))
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let f = [60u32, 20000, 1, 1000][(r % 4) as usize];
    w.restart();
    let b = w.broker(&Opts { clock: f, ..Default::default() })?;
    let so = SockOpts { auto_ack: true, discard: true, ..Default::default() };
    let e = Env {
        addr: b.addr,
        f: f as f64,
        p: Mutex::new(publisher(b.addr, f, &so)?),
        tag: format!("{}", r),
    };
    let cs = cases(f, f == 60 && r % 8 == 4, rng);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let late: Mutex<Vec<(Case, String)>> = Mutex::new(vec![]);
    let e = EnvSync(e);
    std::thread::scope(|s| {
        for (i, c) in cs.iter().enumerate() {
            let (fail, late, e) = (&fail, &late, &e);
            s.spawn(move || {
                let e = &e.0;
                match run_case(e, c, &format!("c{}-{}", e.tag, i)) {
                    Err(x) => {
                        fail.lock().unwrap().get_or_insert(x);
                    }
                    Ok(Out::Fine) => {
                        ctx.eval(Some(hash(format!("{} {:?}", f, c).as_bytes())));
                        ctx.count(
                            match c {
                                Case::Silent { .. } => "silent_dropped_in_time",
                                Case::Deaf { .. } => "not_reading_dropped_in_time",
                                Case::Active { .. } => "active_kept",
                                Case::Zero { .. } => "zero_kept",
                                Case::Nothing { .. } => "without_connect_closed",
                            },
                            1,
                        );
                    }
                    Ok(Out::Skip) => ctx.count("client_too_slow", 1),
                    Ok(Out::Late(m)) => late.lock().unwrap().push((c.clone(), m)),
                }
            });
        }
    });
    if let Some(x) = fail.into_inner().unwrap() {
        return Err(x);
    }
    // late counts only if it is so again and again, on a machine that keeps up
    for (c, m) in late.into_inner().unwrap().into_iter().take(3) {
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("late: {}", m);
        }
        let mut all = vec![m];
        let mut fine = false;
        for k in 0..8 {
            let t0 = now();
            match run_case(&e.0, &c, &format!("again{}-{}", e.0.tag, k))? {
                Out::Late(m) if lateness(t0) < 100_000_000 => all.push(m),
                Out::Late(_) | Out::Skip => {}
                _ => {
                    fine = true;
                    break;
                }
            }
        }
        ctx.count("late_repeated", 1);
        if !fine && all.len() >= 3 {
            viol!("virtual seconds per second: {}; {}", f, all.join("; "));
        }
    }
    ctx.count(&format!("rounds_at_{}_x", f), 1);
    ctx.sample(|| format!("at {} virtual seconds per second: {:?}", f, cs));
    Ok(())
}

struct EnvSync(Env);
unsafe impl Sync for EnvSync {}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one connection whose end (or survival) was timed on the broker's accelerated clock (1, 60, 1000 or
         20000 virtual seconds per second): silent ones (some with thousands of messages not acknowledged) must not end before K (measured from before the last send to
         the observed close: never too short) and must by 1.5 K plus 0.4 s of real time, repeated before it counts;
         ones that send any kind of packet at gaps up to 0.95 K (also when each segment ends inside the next packet, and when they read nothing of the megabytes that wait for them), and ones with keep-alive 0, must not end; silent ones that do not
         read either, with 8 MB waiting for them, must be closed in time (as the system reports it); ones without
         CONNECT must within 90 s. Distinct by speed and case.",
    );
    ctx.assume("the broker reads time and waits only through the C library, which the shim scales");
    rounds(ctx, 4, ctx.secs(14, 300), 8, round);
}

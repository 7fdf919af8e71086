//! Clients that stop reading, and everybody else.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// No round trip of a client that reads takes longer than this
const MOST: Duration = Duration::from_secs(5);

struct Stalled {
    c: Client,
    /// numbered messages sent to it, in order
    due: Vec<(u64, u8)>,
    granted: u8,
    topic: String,
    how: String,
    answers: Vec<SPkt>,
}

/// Round trips between clients that read: each kind is timed
fn healthy(ctx: &Ctx, addr: SocketAddr, tag: &str, rng: &mut Rng, stop: &AtomicBool, trips: &AtomicU64) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let a = Client::connect(addr, &Connect::new(&format!("ha{}", tag)), &so)?;
    let b = Client::connect(addr, &Connect::new(&format!("hb{}", tag)), &so)?;
    b.sub(&[(format!("h/{}", tag), 2)])?;
    let mut n = 0u64;
    loop {
        n += 1;
        let t0 = now();
        let what = match rng.below(6) {
            0 | 1 => {
                let body = format!("{} {}", tag, n).into_bytes();
                a.publish(format!("h/{}", tag), &body, rng.below(3) as u8)?;
                let m = b.message().map_err(|f| f.ctx("a healthy subscriber, while another client does not read"))?;
                if m.msg().payload != body {
                    return b.bad(format!("received {} instead of {}", m.msg().brief(), show(&body)));
                }
                "delivery"
            }
            2 => {
                a.publish("h/nobody", b"x", 2)?;
                a.settle(0).map_err(|f| f.ctx("a healthy publisher, while another client does not read"))?;
                "acknowledgement"
            }
            3 => {
                let f = format!("h/{}/{}", tag, n);
                b.sub(&[(f.clone(), 1)]).map_err(|f| f.ctx("a healthy client, while another does not read"))?;
                b.unsub(&[f])?;
                "SUBSCRIBE and UNSUBSCRIBE"
            }
            4 => {
                b.ping()?;
                "PINGREQ"
            }
            _ => {
                let c = Client::simple(addr, &format!("hn{}-{}", tag, n)).map_err(|f| f.ctx("a new client, while another does not read"))?;
                c.send(&disconnect())?;
                c.expect_closed(WAIT)?;
                "connecting and disconnecting"
            }
        };
        let took = Duration::from_nanos(now() - t0);
        ctx.max("slowest_healthy_round_trip_us", took.as_micros() as u64);
        if took > MOST {
            let late = lateness(t0);
            let m = format!("{} of clients that read took {:.1} s while another client did not read", what, took.as_secs_f64());
            return Err(if late > 500_000_000 { Fail::Inc(format!("machine stalled: {}", m)) } else { b.fail(m) });
        }
        trips.fetch_add(1, Relaxed);
        if stop.load(SeqCst) {
            return a.settle(0);
        }
        std::thread::sleep(Duration::from_micros(rng.below(3000) as u64));
    }
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let small = rng.pct(50);
    let addr = w.broker(&Opts { sndbuf: small.then_some(16 * 1024), short: (r % 4 == 2).then_some(100), ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(addr, &Connect::new("p"), &so)?;
    // how much: everything (fewer than 1000 messages), or more than any queue takes
    let over = rng.pct(35);
    let count: usize = if over { rng.range(1200, 6000) } else { *rng.pick(&[5, 60, 300, 900, 990]) };
    let size: usize = match (over, small) {
        (true, _) => *rng.pick(&[10, 200, 2000]),
        // most of them wait inside the broker
        (false, true) => 1_500_000 / count.max(100),
        (false, false) => (*rng.pick(&[20_000, 300_000, 6_000_000]) / count).min(600_000),
    };
    let ns = rng.range(1, 4);
    let shared = rng.pct(30);
    let mut ss = vec![];
    for i in 0..ns {
        let slow = rng.pct(20);
        let o = SockOpts { rcvbuf: (small && !over).then_some(32 * 1024), auto_ack: true, ..Default::default() };
        let c = Client::connect(addr, &Connect::new(&format!("stalled{}", i)), &o)?;
        let topic = if shared { "st".to_string() } else { format!("st/{}", i) };
        let q = rng.below(3) as u8;
        c.sub(&[(topic.clone(), q)])?;
        if slow {
            c.set_chunk(1 + rng.below(50), 300);
        } else {
            c.pause(true);
            // let the reader notice
            c.send(&pingreq())?;
            std::thread::sleep(Duration::from_millis(3));
        }
        let answers = if slow { vec![] } else { vec![SPkt::PingResp] };
        ss.push(Stalled { c, due: vec![], granted: q, topic, how: if slow { "reads slowly".into() } else { "does not read".into() }, answers });
    }
    let story = format!(
        "{} client(s) that {} subscribed to {}, {} messages of {} bytes for each",
        ns,
        ss.iter().map(|s| s.how.clone()).collect::<Vec<_>>().join(", "),
        if shared { "one topic" } else { "topics of their own" },
        count,
        size
    );
    let tell = |f: Fail| f.ctx(&story);
    let stop = AtomicBool::new(false);
    let trips = AtomicU64::new(0);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let mut res = Ok(());
    std::thread::scope(|sc| {
        for i in 0..2 {
            let mut rng = Rng::new(rng.next(), i);
            let (stop, trips, fail) = (&stop, &trips, &fail);
            sc.spawn(move || {
                if let Err(f) = healthy(ctx, addr, &format!("{}", i), &mut rng, stop, trips) {
                    fail.lock().unwrap().get_or_insert(f);
                    stop.store(true, SeqCst);
                }
            });
        }
        res = (|| -> Res<()> {
            let mut n = 0u64;
            let busy = rng.pct(40);
            let t0 = Instant::now();
            for k in 0..count {
                if stop.load(SeqCst) {
                    break;
                }
                // not for ever, whatever the volume
                if over && t0.elapsed() > Duration::from_secs(8) {
                    break;
                }
                let q = rng.below(3) as u8;
                let one = [0usize];
                let all: Vec<usize> = (0..ns).collect();
                for &i in if shared { &one[..] } else { &all[..] } {
                    n += 1;
                    let mut body = format!("#{}#", n).into_bytes();
                    body.resize(body.len().max(size), b'.');
                    let t = ss[i].topic.clone();
                    p.publish(&t, &body, q)?;
                    for s in ss.iter_mut() {
                        if s.topic == t {
                            let q = q.min(s.granted);
                            s.due.push((n, q));
                        }
                    }
                }
                // the stalled ones do not read, but they may write
                if busy && k % 10 == 0 && k < 600 {
                    let s = rng.below(ns);
                    let pid = 30000 + k as u16;
                    match rng.below(4) {
                        0 => {
                            ss[s].c.try_send(&publish(b"h/nobody", b"x", 1, pid, false, false)).map_err(|e| ss[s].c.fail(format!("cannot send: {}", e)))?;
                            ss[s].answers.push(SPkt::PubAck(pid));
                        }
                        1 => {
                            ss[s].c.try_send(&subscribe(pid, &[("st/other", 1)])).map_err(|e| ss[s].c.fail(format!("cannot send: {}", e)))?;
                            ss[s].answers.push(SPkt::SubAck(pid, vec![1]));
                        }
                        2 => {
                            ss[s].c.try_send(&pingreq()).map_err(|e| ss[s].c.fail(format!("cannot send: {}", e)))?;
                            ss[s].answers.push(SPkt::PingResp);
                        }
                        _ => {
                            ss[s].c.try_send(&publish(b"h/nobody", &[b'x'; 2000], 0, 0, false, false)).map_err(|e| ss[s].c.fail(format!("cannot send: {}", e)))?;
                        }
                    }
                }
            }
            p.settle(0).map_err(|f| f.ctx("the publisher to a client that does not read"))?;
            // some are replaced or go, with all that waits for them
            if rng.pct(40) {
                let i = rng.below(ns);
                let s = ss.swap_remove(i);
                let t0 = now();
                let gone = match rng.below(3) {
                    0 => {
                        s.c.abort();
                        "reset"
                    }
                    1 => {
                        s.c.close();
                        "closed"
                    }
                    _ => {
                        let c = Client::connect(addr, &Connect::new(&s.c.name), &so).map_err(|f| f.ctx("taking over from a client that does not read"))?;
                        c.sub(&[(s.topic.clone(), 1)])?;
                        p.publish(&s.topic, b"for the new one", 0)?;
                        for s in ss.iter_mut().filter(|x| x.topic == s.topic) {
                            s.due.push((0, 0));
                        }
                        let m = c.message()?;
                        if m.msg().payload != b"for the new one" {
                            return c.bad(format!("took over from a client that does not read and received {} first", m.msg().brief()));
                        }
                        "taken over"
                    }
                };
                let took = Duration::from_nanos(now() - t0);
                if took > MOST {
                    let m = format!("taking over from a client that does not read took {:.1} s", took.as_secs_f64());
                    return Err(if lateness(t0) > 500_000_000 { Fail::Inc(format!("machine stalled: {}", m)) } else { s.c.fail(m) });
                }
                ctx.count(&format!("stalled_then_{}", gone.replace(' ', "_")), 1);
            }
            // go on with nobody publishing to them
            let t = trips.load(SeqCst);
            let end = Instant::now() + Duration::from_millis(rng.range(20, 300) as u64);
            while Instant::now() < end || (trips.load(SeqCst) < t + 5 && !stop.load(SeqCst)) {
                std::thread::sleep(Duration::from_millis(2));
            }
            Ok(())
        })();
        stop.store(true, SeqCst);
    });
    res.and(match fail.into_inner().unwrap() {
        Some(f) => Err(f),
        None => Ok(()),
    })
    .map_err(|f| tell(f))?;
    // ---- they read again
    let mut order: Vec<usize> = (0..ss.len()).collect();
    rng.shuffle(&mut order);
    let mut got_all = 0;
    for i in order {
        let s = &ss[i];
        s.c.set_chunk(256 * 1024, 0);
        s.c.pause(false);
        let number = |e: &Ev| -> Option<u64> {
            if e.msg().payload == b"for the new one" {
                return Some(0);
            }
            let t = String::from_utf8_lossy(&e.msg().payload[..e.msg().payload.len().min(24)]).to_string();
            t.split('#').nth(1).and_then(|x| x.parse().ok())
        };
        let mut got: Vec<(u64, u8)> = vec![];
        let mut take = |e: &Ev| -> Res<bool> {
            if e.msg().payload.starts_with(b"end") {
                return Ok(true);
            }
            let Some(n) = number(e) else { return s.c.bad(format!("{}: received {}", story, e.msg().brief())) };
            got.push((n, e.msg().qos));
            if number(e) != Some(0) && e.msg().payload.len() < size {
                return s.c.bad(format!("{}: {} is too short", story, e.msg().brief()));
            }
            Ok(false)
        };
        if !over {
            p.publish(&s.topic, format!("end{}", i).as_bytes(), 0)?;
            loop {
                let e = s.c.message().map_err(|f| tell(f).ctx("after it reads again"))?;
                if e.msg().payload == format!("end{}", i).as_bytes() {
                    break;
                }
                take(&e)?;
            }
            if got != s.due {
                let k = got.iter().zip(&s.due).take_while(|(a, b)| a == b).count();
                return s.c.bad(format!(
                    "{}: {} of {} messages that were waiting arrived in order; then {:?} instead of {:?}; {} arrived in all",
                    story,
                    k,
                    s.due.len(),
                    got.get(k),
                    s.due.get(k),
                    got.len()
                ));
            }
            got_all += 1;
        } else {
            // some may be missing, but what comes is in order, and later messages come
            let t0 = Instant::now();
            let mut k = 0;
            'drain: loop {
                k += 1;
                p.publish(&s.topic, format!("end{}", k).as_bytes(), 0)?;
                let until = Instant::now() + Duration::from_millis(500);
                loop {
                    let left = until.saturating_duration_since(Instant::now());
                    match s.c.wait(left, |s| s.msgs.pop_front()) {
                        None => break,
                        Some(e) => {
                            if take(&e)? {
                                break 'drain;
                            }
                        }
                    }
                }
                if t0.elapsed() > WAIT * 2 || s.c.is_closed() {
                    return Err(silence(s.c.fail(format!("{}: reads again, but gets no new messages", story))));
                }
            }
            let mut it = s.due.iter();
            for g in &got {
                if !it.any(|d| d == g) {
                    return s.c.bad(format!("{}: message {:?} arrived out of order, twice, or at the wrong QoS", story, g));
                }
            }
            ctx.count("messages_dropped_beyond_queues", (s.due.len() - got.len()) as u64);
        }
        // what it asked meanwhile has been answered, in order
        for want in &s.answers {
            let a = s.c.answer().map_err(|f| tell(f))?;
            if a.pkt != *want {
                return s.c.bad(format!("{}: expected {}, got {}", story, want.brief(), a.pkt.brief()));
            }
        }
        s.c.ping().map_err(|f| tell(f))?;
        ctx.count("messages_waiting_received", got.len() as u64);
        ctx.eval(Some(hash(format!("{} {}", story, i).as_bytes()) ^ r));
    }
    ctx.count("stalls_with_everything_delivered", got_all);
    ctx.count("healthy_round_trips", trips.load(SeqCst));
    ctx.count(if over { "rounds_beyond_queues" } else { "rounds_within_queues" }, 1);
    ctx.sample(|| format!("{}; {} healthy round trips meanwhile", story, trips.load(SeqCst)));
    w.restart();
    Ok(())
}

/// More messages than the broker queues for anyone, on topics that others subscribe to as well
fn flood(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts { sndbuf: Some(16 * 1024), ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let t00 = Instant::now();
    let count = ctx.n(115_000, 250_000) as u64;
    let p = Client::connect(addr, &Connect::new("p"), &so)?;
    let f = *rng.pick(&["fl/x", "fl/+", "#"]);
    let stalled = |i: usize| -> Res<Client> {
        let c = Client::connect(addr, &Connect::new(&format!("stalled{}", i)), &SockOpts { rcvbuf: Some(32 * 1024), ..so.clone() })?;
        c.sub(&[(f, 0)])?;
        c.pause(true);
        c.send(&pingreq())?;
        Ok(c)
    };
    // the stalled ones before and after the others
    let s1 = stalled(1)?;
    let mut hs = vec![];
    for (i, f) in ["fl/x", "fl/#", f].iter().enumerate() {
        let c = Client::connect(addr, &Connect::new(&format!("healthy{}", i)), &so)?;
        c.sub(&[(f, 0)])?;
        hs.push(c);
    }
    let s2 = stalled(2)?;
    let stop = AtomicBool::new(false);
    let trips = AtomicU64::new(0);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let mut res = Ok(());
    std::thread::scope(|sc| {
        let mut rng2 = Rng::new(rng.next(), 9);
        let (stop, trips, fail) = (&stop, &trips, &fail);
        sc.spawn(move || {
            if let Err(f) = healthy(ctx, addr, "flood", &mut rng2, stop, trips) {
                fail.lock().unwrap().get_or_insert(f);
            }
        });
        res = (|| -> Res<()> {
            let mut next: Vec<u64> = vec![0; hs.len()];
            let mut n = 0;
            while n < count {
                let k = 500.min(count - n);
                let mut bytes = vec![];
                for i in n..n + k {
                    bytes.extend(publish(b"fl/x", format!("#{}#", i).as_bytes(), 0, 0, false, false));
                }
                n += k;
                p.send(&bytes)?;
                // the healthy ones take every message; never more than a few thousand wait for them
                for (c, next) in hs.iter().zip(&mut next) {
                    while *next + 3000 < n || (n == count && *next < n) {
                        let e = c.message().map_err(|f| f.ctx(&format!("of {} messages published, {} arrived at a healthy subscriber while others do not read", n, next)))?;
                        if e.msg().topic != b"fl/x" {
                            continue;
                        }
                        if e.msg().payload != format!("#{}#", next).as_bytes() {
                            return c.bad(format!("while two others do not read, message {} is missing at a healthy subscriber: got {} ({} published)", next, e.msg().brief(), n));
                        }
                        *next += 1;
                    }
                }
            }
            Ok(())
        })();
        stop.store(true, SeqCst);
    });
    res?;
    if let Some(f) = fail.into_inner().unwrap() {
        return Err(f);
    }
    for s in [&s1, &s2] {
        s.pause(false);
    }
    for s in [&s1, &s2] {
        let mut last: i64 = -1;
        let mut k = 0;
        let t0 = Instant::now();
        let mut got = 0u64;
        'drain: loop {
            k += 1;
            p.publish("fl/x", format!("end{}", k).as_bytes(), 0)?;
            let until = Instant::now() + Duration::from_millis(500);
            while let Some(e) = s.wait(until.saturating_duration_since(Instant::now()), |s| s.msgs.pop_front()) {
                if e.msg().topic != b"fl/x" {
                    continue;
                }
                let t = String::from_utf8_lossy(&e.msg().payload).to_string();
                if t.starts_with("end") {
                    if t == format!("end{}", k) {
                        break 'drain;
                    }
                    continue;
                }
                let n: i64 = t.trim_matches('#').parse().unwrap_or(-1);
                if n <= last {
                    return s.bad(format!("reads again after {} messages: message {} after {}", count, n, last));
                }
                last = n;
                got += 1;
            }
            if t0.elapsed() > WAIT * 2 || s.is_closed() {
                return Err(silence(s.fail(format!("reads again after {} messages, but gets no new ones ({} arrived)", count, got))));
            }
        }
        if got < 1000 {
            return s.bad(format!("reads again after {} messages and receives only {} of them", count, got));
        }
        ctx.count("messages_dropped_beyond_queues", count - got);
        ctx.count("messages_waiting_received", got);
        s.ping().or_else(|_| s.ping())?;
        ctx.eval(Some(hash(format!("flood {} {}", r, got).as_bytes())));
    }
    ctx.count("healthy_round_trips", trips.load(SeqCst));
    ctx.count("floods_beyond_100000_messages", 1);
    ctx.max("longest_flood_ms", t00.elapsed().as_millis() as u64);
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one client that did not read, or read slowly, while messages for it were published: 5 to 990
         messages (all must arrive, in order, once it reads again) or thousands (what arrives is in order, and new ones
         arrive afterwards; now and then more than 100000, while healthy subscribers of the same topic must miss none), up to 6 MB, up to four such clients, which may go on sending requests (answered in
         order later). Meanwhile two pairs of healthy clients do timed round trips of five kinds; none may take 5 s.
         Distinct by situation.",
    );
    rounds(ctx, 6, ctx.secs(16, 360), 18, |ctx, w, r, rng| if r % 100 == 0 { flood(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

//! SIGINT at any moment.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const LIMIT: Duration = Duration::from_secs(10);

const ACTS: &[&str] = &[
    "idle",
    "inside a packet",
    "no CONNECT",
    "inside CONNECT",
    "publishing",
    "publishing QoS 2 with acknowledgements",
    "not reading",
    "not reading, much waiting",
    "subscribing",
    "connecting and leaving",
    "taking over",
    "pinging without reading",
    "half-closed",
    "requests in pipelines",
];

/// Something a client does until it is told to stop or its connection ends
fn act(addr: SocketAddr, what: &str, i: u64, rng: &mut Rng, stop: &AtomicBool, open: &AtomicU64, events: &AtomicU64) -> Option<Client> {
    let so = SockOpts { auto_ack: true, auto_pub: true, discard: true, ..Default::default() };
    let id = format!("c{}", i);
    let conn = |id: &str, so: &SockOpts| -> Option<Client> {
        let c = Client::open(addr, id, so).ok()?;
        c.send(&Connect::new(id).varied(0).build()).ok()?;
        if !so.paused {
            c.expect_connack().ok()?;
        }
        Some(c)
    };
    let c = match what {
        "no CONNECT" => Client::open(addr, &id, &so).ok(),
        "inside CONNECT" => {
            let c = Client::open(addr, &id, &so).ok()?;
            let b = Connect::new(&id).build();
            c.try_send(&b[..rng.range(1, b.len() - 1)]).ok()?;
            Some(c)
        }
        "connecting and leaving" | "taking over" => None,
        _ => conn(&id, &so),
    };
    open.fetch_add(1, SeqCst);
    match what {
        "inside a packet" => {
            let b = publish(b"t/0", &[b'x'; 500], 1, 5, false, false);
            let cut = rng.range(1, b.len() - 1);
            // alone, or behind whole packets in one segment
            let mut all = match rng.below(4) {
                0 | 1 => vec![],
                2 => pingreq(),
                _ => [publish(b"t/1", b"before", 1, 4, false, false), subscribe(6, &[("t/#", 1)])].concat(),
            };
            all.extend(&b[..cut]);
            let _ = c.as_ref()?.try_send(&all);
        }
        "publishing" => {
            let b = publish(format!("t/{}", rng.below(3)).as_bytes(), &vec![b'p'; *rng.pick(&[10, 500, 20000])], 0, 0, false, false).repeat(5);
            let sock = &c.as_ref()?.sock;
            while !stop.load(SeqCst) && (&**sock).write_all(&b).is_ok() {
                events.fetch_add(5, Relaxed);
            }
        }
        "publishing QoS 2 with acknowledgements" => {
            let c = c.as_ref()?;
            while !stop.load(SeqCst) && c.publish("t/1", b"acknowledged", 2).is_ok() {
                events.fetch_add(1, Relaxed);
                if c.settle(20).is_err() {
                    break;
                }
            }
        }
        "not reading" | "not reading, much waiting" => {
            let c = c.as_ref()?;
            let _ = c.sub(&[("t/#", rng.below(3) as u8)]);
            c.pause(true);
            if what.ends_with("waiting") {
                let b = publish(b"t/2", &[b'w'; 10000], 0, 0, false, false);
                for _ in 0..1200 {
                    if stop.load(SeqCst) || (&*c.sock).write_all(&b).is_err() {
                        break;
                    }
                }
            }
        }
        "subscribing" => {
            let c = c.as_ref()?;
            let mut n = 0;
            while !stop.load(SeqCst) {
                n += 1;
                let f = format!("t/{}/+", n % 50);
                if c.sub(&[(f.clone(), 1)]).is_err() || c.unsub(&[f]).is_err() {
                    break;
                }
                events.fetch_add(1, Relaxed);
            }
        }
        "connecting and leaving" | "taking over" => {
            let mut n = 0;
            let mut last = None;
            while !stop.load(SeqCst) {
                n += 1;
                let id = if what == "taking over" { "same".to_string() } else { format!("{}-{}", id, n) };
                let Some(c) = conn(&id, &so) else { break };
                events.fetch_add(1, Relaxed);
                if what == "taking over" {
                    last = Some(c);
                } else if rng.pct(30) {
                    crate::sys::abort(c.sock.as_raw_fd());
                }
            }
            return last;
        }
        "pinging without reading" => {
            let c = c.as_ref()?;
            c.pause(true);
            let b = pingreq().repeat(500);
            let _ = c.sock.set_write_timeout(Some(Duration::from_millis(200)));
            while !stop.load(SeqCst) && (&*c.sock).write_all(&b).is_ok() {
                events.fetch_add(500, Relaxed);
            }
        }
        "half-closed" => c.as_ref()?.half_close(),
        "requests in pipelines" => {
            let c = c.as_ref()?;
            let mut b = vec![];
            for k in 1..100 {
                b.extend(subscribe(k, &[(format!("t/{}", k).as_bytes(), 0)]));
                b.extend(unsubscribe(k, &[format!("t/{}", k).as_bytes()]));
            }
            while !stop.load(SeqCst) && (&*c.sock).write_all(&b).is_ok() {
                events.fetch_add(198, Relaxed);
            }
        }
        _ => {}
    }
    c
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let pre = rng.pct(30).then_some((2000, 500));
    let exhausted = r % 5 == 4;
    let o = Opts { preempt: pre, nofile: exhausted.then_some(40), ..Default::default() };
    let mut b = Broker::start(&o)?;
    let addr = b.addr;
    // it serves
    let first = Client::simple(addr, "first")?;
    let n = if rng.pct(10) { 0 } else { rng.range(1, 10) };
    let mut acts: Vec<&str> = (0..n).map(|_| *rng.pick(ACTS)).collect();
    // many that wait for an answer of the command loop when it stops
    let storm = r % 2 == 1;
    if storm {
        acts = vec!["requests in pipelines"; rng.range(6, 30)];
        if rng.pct(30) {
            acts.extend(["connecting and leaving"; 6]);
        }
    }
    if !storm && rng.pct(50) {
        acts.push("inside a packet");
    }
    if !storm && r < 2 * ACTS.len() as u64 {
        acts.push(ACTS[(r / 2 % ACTS.len() as u64) as usize]);
    }
    let wait = Duration::from_micros(*rng.pick(&[0, 300, 2000, 10_000, 50_000, 200_000]));
    let story = format!("{} clients: {:?}{}; SIGINT {:?} later", acts.len(), acts, if exhausted { ", out of descriptors" } else { "" }, wait);
    let stop = AtomicBool::new(false);
    let (open, events) = (AtomicU64::new(0), AtomicU64::new(0));
    let mut extra = vec![];
    if exhausted {
        // more connections than descriptors; the rest waits in the backlog
        for _ in 0..60 {
            if let Ok(s) = tcp(addr) {
                extra.push(s);
            }
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    // a crowd of connections that are just there
    let mut crowd = vec![];
    if !exhausted && (r == 2 || r == 3 || r % 30 == 10) {
        for i in 0..rng.range(300, 1200) {
            let mut s = tcp(addr).map_err(|e| Fail::V(format!("cannot connect: {}", e)))?;
            match i % 4 {
                0 => {}
                1 => s.write_all(&[0x10]).map_err(|e| Fail::V(format!("cannot send: {}", e)))?,
                _ => {
                    let mut b = Connect::new(&format!("crowd{}", i)).clean(i % 8 < 5).build();
                    b.extend(subscribe(1, &[(format!("t/{}", i % 16).as_bytes(), (i % 3) as u8)]));
                    s.write_all(&b).map_err(|e| Fail::V(format!("cannot send: {}", e)))?;
                }
            }
            crowd.push(s);
        }
        first.ping()?;
        ctx.max("largest_crowd", crowd.len() as u64);
    }
    let mut res: Res<()> = Ok(());
    std::thread::scope(|sc| {
        let hs: Vec<_> = acts
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let mut rng = Rng::new(rng.next(), i as u64);
                let (stop, open, events) = (&stop, &open, &events);
                sc.spawn(move || act(addr, a, i as u64, &mut rng, stop, open, events).map(SendClient))
            })
            .collect();
        // until everybody is at it, or not (a client that is not accepted never is)
        let until = Instant::now() + Duration::from_millis(if exhausted { 50 } else { 1500 });
        while open.load(SeqCst) < acts.len() as u64 && Instant::now() < until {
            std::thread::sleep(Duration::from_micros(200));
        }
        std::thread::sleep(wait);
        let t0 = Instant::now();
        let at = now();
        b.interrupt();
        let st = b.wait_exit(LIMIT);
        let took = t0.elapsed();
        stop.store(true, SeqCst);
        res = match st {
            None => Err(silence(Fail::V(format!("{}: the broker is still running {} s after SIGINT", story, LIMIT.as_secs())))),
            Some(s) if !s.success() => Err(Fail::V(format!("{}: the broker ended with {} on SIGINT", story, s))),
            Some(_) => Ok(()),
        };
        ctx.max("slowest_exit_ms", took.as_millis() as u64);
        ctx.max("machine_late_ms", lateness(at) / 1_000_000);
        if st.is_none() {
            b.child.kill().ok();
        }
        let cs: Vec<Client> = hs.into_iter().filter_map(|h| h.join().ok().flatten()).map(|c| c.0).collect();
        if res.is_err() {
            return;
        }
        for s in &mut crowd {
            s.set_read_timeout(Some(WAIT)).ok();
            let mut buf = [0; 4096];
            loop {
                match s.read(&mut buf) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                        res = Err(silence(Fail::V(format!("{}: a connection of the crowd is still open", story))));
                        return;
                    }
                    Err(_) => break,
                }
            }
        }
        for c in cs.iter().chain([&first]) {
            c.pause(false);
            if let Err(f) = c.expect_closed(WAIT) {
                res = Err(f.ctx(&story));
            }
        }
    });
    if let Some(m) = b.reports().first() {
        return Err(Fail::V(format!("{}: the broker reported:\n{}", story, m)));
    }
    res.map_err(|f| match f {
        Fail::V(m) => Fail::V(format!("{}\nbroker log, last lines:\n{}", m, b.tail(30))),
        f => f,
    })?;
    drop(extra);
    drop(b);
    if storm {
        ctx.count("storms_of_requests", 1);
        ctx.eval(Some(hash(story.as_bytes())));
        return Ok(());
    }
    // another one, at once, at the same address
    let mut b = Broker::start(&Opts { addr: Some(addr), ..Default::default() }).map_err(|f| match f {
        Fail::Inc(m) if m.contains("does not start") => Fail::V(format!("{}: afterwards no broker can be started on that port: {}", story, m)),
        f => f,
    })?;
    let c = Client::simple(addr, "again")?;
    c.sub(&[("x", 1)])?;
    c.publish("x", b"again", 1)?;
    c.message()?;
    c.answer()?;
    b.interrupt();
    match b.wait_exit(LIMIT) {
        Some(s) if s.success() => {}
        s => return Err(silence(Fail::V(format!("a broker with one idle client, on SIGINT: {:?}", s)))),
    }
    c.expect_closed(WAIT)?;
    for a in &acts {
        ctx.count(&format!("with_{}", a.replace(',', "").replace(' ', "_")), 1);
    }
    if exhausted {
        ctx.count("with_descriptors_exhausted", 1);
    }
    ctx.count("client_actions_before", events.load(SeqCst));
    ctx.eval(Some(hash(story.as_bytes())));
    ctx.sample(|| story.clone());
    Ok(())
}

struct SendClient(Client);
unsafe impl Send for SendClient {}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one SIGINT to a broker with 0-36 clients in 14 kinds of activity (in some rounds among up to 1200 others), at a random moment, sometimes with
         its descriptors exhausted or under injected preemption: exit status 0 within 10 s, every connection closed, no
         panic, and a new broker serves on the same address at once. Distinct by situation.",
    );
    ctx.assume("the signal comes after the broker has served its first client");
    rounds(ctx, 6, ctx.secs(20, 360), 30, round);
}

//! Nothing lost, duplicated or invented while everything changes at the same time.
//!
//! Every client call is recorded with its times at the client boundary; when a phase is over the
//! deliveries are compared with what the recorded intervals require and allow.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

const FILTERS: &[&str] = &["h/#", "h/+/1", "h/0/+", "h/0/1", "h/1/#", "h/1/2", "+/0/2", "h/+/+", "#", "h/2", "h/+", "h/0/#", "+/+/0"];
const TOPICS: &[&str] = &["h/0/0", "h/0/1", "h/0/2", "h/1/0", "h/1/1", "h/1/2", "h/2", "h/2/1"];

#[derive(Clone, Debug)]
struct Interval {
    filter: &'static str,
    sub_sent: u64,
    sub_acked: u64,
    unsub_sent: u64,
    unsub_acked: u64,
}

#[derive(Clone, Debug)]
struct Pub {
    topic: &'static str,
    start: u64,
    /// known to have reached the broker
    sure: bool,
}

struct Sub {
    c: Client,
    log: Vec<Interval>,
    open: HashMap<&'static str, usize>,
}

fn sub_thread(s: &mut Sub, rng: &mut Rng, stop: &AtomicBool, events: &AtomicUsize) -> Res<()> {
    while !stop.load(SeqCst) {
        let f = *rng.pick(FILTERS);
        if let Some(i) = s.open.get(f).cloned() {
            if rng.pct(70) {
                s.log[i].unsub_sent = now();
                s.c.unsub(&[f])?;
                s.log[i].unsub_acked = now();
                s.open.remove(f);
            } else {
                // again: stays in force
                s.c.subscribe(&[(f, rng.below(3) as u8)])?;
            }
        } else {
            let sent = now();
            s.c.sub(&[(f, rng.below(3) as u8)])?;
            s.log.push(Interval { filter: f, sub_sent: sent, sub_acked: now(), unsub_sent: u64::MAX, unsub_acked: u64::MAX });
            s.open.insert(f, s.log.len() - 1);
        }
        events.fetch_add(1, Relaxed);
        if rng.pct(60) {
            std::thread::sleep(Duration::from_micros(rng.below(3000) as u64));
        }
    }
    Ok(())
}

fn pub_thread(p: &Client, tag: usize, quota: usize, rng: &mut Rng, stop: &AtomicBool, log: &Mutex<HashMap<Vec<u8>, Pub>>, n: &mut u64) -> Res<()> {
    for _ in 0..quota {
        if stop.load(SeqCst) {
            break;
        }
        let k = if rng.pct(20) { rng.range(2, 6) } else { 1 };
        let mut bytes = vec![];
        let mut mine = vec![];
        for _ in 0..k {
            let t = *rng.pick(TOPICS);
            let q = rng.below(3) as u8;
            let body = format!("{}.{}", tag, n).into_bytes();
            *n += 1;
            let pid = if q > 0 { p.pid() } else { 0 };
            if q > 0 {
                p.sh.m.lock().unwrap().pending.insert(pid, q);
            }
            bytes.extend(publish(t.as_bytes(), &body, q, pid, false, false));
            mine.push((t, body));
        }
        let start = now();
        {
            let mut l = log.lock().unwrap();
            for (t, b) in mine {
                l.insert(b, Pub { topic: t, start, sure: true });
            }
        }
        p.send(&bytes)?;
        if rng.pct(70) {
            std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
        }
    }
    p.settle(0)
}

/// Clients that come, subscribe, publish and go, in every way
fn churn_thread(addr: std::net::SocketAddr, tag: usize, rng: &mut Rng, stop: &AtomicBool, quota: usize, log: &Mutex<HashMap<Vec<u8>, Pub>>, events: &AtomicUsize) -> Res<()> {
    let mut n = 0;
    let mut k = 0;
    while !stop.load(SeqCst) {
        k += 1;
        let so = SockOpts { auto_ack: true, auto_pub: true, discard: true, ..Default::default() };
        let id = if rng.pct(70) { format!("churn{}-{}", tag, k) } else { format!("churn{}-p", tag) };
        let c = Client::connect(addr, &Connect::new(&id).clean(rng.pct(70)), &so)?;
        for _ in 0..rng.below(4) {
            let f = *rng.pick(FILTERS);
            if rng.pct(70) {
                c.sub(&[(f, rng.below(3) as u8)])?;
            } else {
                c.unsub(&[f])?;
            }
        }
        let mut bytes = vec![];
        let mut mine = vec![];
        for _ in 0..rng.below(4) {
            if n < quota {
                let t = *rng.pick(TOPICS);
                let body = format!("c{}.{}", tag, n).into_bytes();
                n += 1;
                bytes.extend(publish(t.as_bytes(), &body, 0, 0, false, false));
                mine.push(body.clone());
                log.lock().unwrap().insert(body, Pub { topic: t, start: now(), sure: false });
            }
        }
        c.send(&bytes)?;
        events.fetch_add(1, Relaxed);
        let sure = |c: &Client| -> Res<()> {
            c.ping()?;
            let mut l = log.lock().unwrap();
            for b in &mine {
                l.get_mut(b).unwrap().sure = true;
            }
            Ok(())
        };
        match rng.below(5) {
            0 => c.abort(),
            1 => {
                sure(&c)?;
                c.abort()
            }
            2 => {
                sure(&c)?;
                c.send(&disconnect())?
            }
            3 => {
                sure(&c)?;
                c.half_close();
                c.expect_closed(WAIT)?;
            }
            _ => c.close(),
        }
        if rng.pct(50) {
            std::thread::sleep(Duration::from_micros(rng.below(2000) as u64));
        }
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let pre = [None, Some((1000, 300)), Some((10000, 60)), Some((200, 4000))][(r % 4) as usize];
    w.restart();
    let addr = w.broker(&Opts { preempt: pre, ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let (ns, np, nc) = (rng.range(1, 5), rng.range(1, 4), rng.below(4));
    let mut subs = vec![];
    for i in 0..ns {
        let c = Client::connect(addr, &Connect::new(&format!("s{}", i)), &so)?;
        c.sub(&[("!end", 0)])?;
        subs.push(Sub { c, log: vec![], open: HashMap::new() });
    }
    let mut pubs = vec![];
    for i in 0..np {
        pubs.push((Client::connect(addr, &Connect::new(&format!("p{}", i)), &so)?, 0u64));
    }
    // a house full of clients that do nothing
    let mut idle = vec![];
    if r % 5 == 3 || r % 5 == 1 {
        for i in 0..rng.range(60, 140) {
            let c = Client::connect(addr, &Connect::new(&format!("idle{}", i)).clean(rng.pct(60)), &SockOpts { discard: true, ..so.clone() })?;
            if rng.pct(50) {
                c.sub(&[(*rng.pick(FILTERS), rng.below(3) as u8)])?;
            }
            idle.push(c);
        }
        ctx.max("most_idle_clients", idle.len() as u64);
    }
    let log: Mutex<HashMap<Vec<u8>, Pub>> = Mutex::new(HashMap::new());
    let events = AtomicUsize::new(0);
    for phase in 0..4 {
        log.lock().unwrap().clear();
        let stop_pubs = AtomicBool::new(false);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<Fail>> = Mutex::new(None);
        // fewer than 1000 messages in a phase, all publishers together
        let quota = 480 / np / 2;
        let bad = |e: Fail| {
            fail.lock().unwrap().get_or_insert(e);
            stop.store(true, SeqCst);
            stop_pubs.store(true, SeqCst);
        };
        std::thread::scope(|sc| {
            for (i, s) in subs.iter_mut().enumerate() {
                let mut rng = Rng::new(rng.next(), i as u64);
                let (stop, events, bad) = (&stop, &events, &bad);
                sc.spawn(move || sub_thread(s, &mut rng, stop, events).unwrap_or_else(bad));
            }
            for i in 0..nc {
                let mut rng = Rng::new(rng.next(), 100 + i as u64);
                let (stop, events, log, bad) = (&stop, &events, &log, &bad);
                sc.spawn(move || churn_thread(addr, phase * 10 + i, &mut rng, stop, 100, log, events).unwrap_or_else(bad));
            }
            let hs: Vec<_> = pubs
                .iter_mut()
                .enumerate()
                .map(|(i, p)| {
                    let mut rng = Rng::new(rng.next(), 200 + i as u64);
                    let (stop, log, bad) = (&stop_pubs, &log, &bad);
                    // clients are not shared between threads otherwise
                    let p = SendMut(p);
                    sc.spawn(move || {
                        let p = p;
                        let (c, n) = &mut *p.0;
                        pub_thread(c, i, quota, &mut rng, stop, log, n).unwrap_or_else(bad)
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            stop.store(true, SeqCst);
        });
        if let Some(f) = fail.into_inner().unwrap() {
            return Err(f);
        }
        // churners that closed without a barrier may still have messages on their way; the
        // sentinels of the publishers bound only their own. They are optional anyway.
        let end = format!("end{}", phase);
        for (p, _) in &pubs {
            p.publish("!end", end.as_bytes(), 0)?;
        }
        let log = log.lock().unwrap();
        for s in &mut subs {
            let mut got: Vec<Ev> = vec![];
            for _ in 0..np {
                got.extend(s.c.messages_until(end.as_bytes())?);
            }
            let mut seen: HashMap<&[u8], u32> = HashMap::new();
            for e in &got {
                let m = e.msg();
                let Some(p) = log.get(&m.payload) else {
                    if m.payload.starts_with(b"c") {
                        continue; // a churner's message of an earlier phase
                    }
                    return s.c.bad(format!("received a message nobody published in this phase: {}", m.brief()));
                };
                if p.topic.as_bytes() != &m.topic[..] {
                    return s.c.bad(format!("topic changed: {} was published on {}", m.brief(), p.topic));
                }
                let n = seen.entry(&m.payload).or_insert(0);
                *n += 1;
                if *n > 1 {
                    return s.c.bad(format!("received twice: {}; published at {} ns; subscriptions {:?}", m.brief(), p.start, s.log));
                }
                let may = s.log.iter().any(|i| matches(i.filter.as_bytes(), p.topic.as_bytes()) && i.sub_sent < e.t && i.unsub_acked > p.start);
                if !may {
                    return s.c.bad(format!("{} was received at {} ns, published at {} ns, but no matching subscription was in force: {:?}", m.brief(), e.t, p.start, s.log));
                }
                ctx.count("deliveries", 1);
            }
            for (b, p) in log.iter() {
                let must: Vec<&Interval> = s
                    .log
                    .iter()
                    .filter(|i| i.sub_acked < p.start && i.unsub_sent == u64::MAX && matches(i.filter.as_bytes(), p.topic.as_bytes()))
                    .collect();
                let n = seen.get(&b[..]).copied().unwrap_or(0);
                if !must.is_empty() && n == 0 && p.sure {
                    return s.c.bad(format!("message {} on {} published at {} ns was lost; subscriptions in force: {:?}", show(b), p.topic, p.start, must));
                }
                let matching = s.log.iter().any(|i| matches(i.filter.as_bytes(), p.topic.as_bytes()));
                ctx.count(if !must.is_empty() { "pairs_must" } else if n > 0 { "pairs_may_and_did" } else if matching { "pairs_may_and_did_not" } else { "pairs_must_not" }, 1);
                let key = matching.then(|| hash(format!("{} {} {} {}", r, phase, s.c.name, show(b)).as_bytes()));
                ctx.eval(key);
            }
            ctx.sample(|| format!("client {} in a phase of {} messages: {:?}", s.c.name, log.len(), s.log.iter().take(5).collect::<Vec<_>>()));
        }
        // forget intervals that are over
        for s in &mut subs {
            let keep: Vec<Interval> = s.log.iter().filter(|i| i.unsub_sent == u64::MAX).cloned().collect();
            s.log = keep;
            s.open = s.log.iter().enumerate().map(|(i, x)| (x.filter, i)).collect();
            // nothing of this phase may turn up in the next: publishers are acknowledged, and the
            // last barrier was behind everything they sent
            s.c.ping()?;
            for e in s.c.take_msgs() {
                if !e.msg().payload.starts_with(b"c") {
                    return s.c.bad(format!("received after the last sentinel: {}", e.msg().brief()));
                }
            }
        }
    }
    for c in &idle {
        c.ping()?;
    }
    ctx.count("operations_by_subscribers_and_churners", events.load(SeqCst) as u64);
    ctx.count("phases", 4);
    w.restart();
    Ok(())
}

struct SendMut<'a>(&'a mut (Client, u64));
unsafe impl Send for SendMut<'_> {}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one published message against one staying subscriber: lost (must), duplicated, or received
         without a subscription in force (must not), decided from call and return times recorded at the clients.
         Phases of fewer than 1000 messages with 1-5 subscribers that subscribe and unsubscribe all the time, 1-4
         publishers at mixed QoS, in two rounds of five 60-140 idle clients, and 0-3 churners that connect, take over, subscribe, publish and end in five ways;
         broker under injected preemption in three of four rounds. Non-trivial: some subscription of the client's
         history matches the topic; distinct by message, client and round.",
    );
    ctx.assume("messages of connections that end without an acknowledgement may or may not have been published");
    rounds(ctx, 4, ctx.secs(25, 420), 16, round);
}

//! What sessions hold, across connections and the ways they end.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::time::Duration;

const FILTERS: &[&str] = &["f/a", "f/+", "f/#", "f/a/b", "+/a", "#", "f/b/#", "f/+/b", "f", "f/b"];
const TOPICS: &[&str] = &["f/a", "f/b", "f/a/b", "f", "g/a", "f/b/b", "g"];
const CLOCK: u32 = 20;

struct Who {
    id: String,
    c: Option<Client>,
    /// clean flag of the last accepted connection
    clean: bool,
    ever: bool,
    held: BTreeMap<String, u8>,
    maybe: BTreeSet<String>,
    story: Vec<String>,
    keep: u16,
    /// has no subscriptions when it leaves
    bare: bool,
}

impl Who {
    fn zed(&self) -> String {
        format!("z/{}", self.id)
    }
    fn tell(&self, f: Fail) -> Fail {
        f.ctx(&format!("identifier {}: {}", self.id, self.story.join(", ")))
    }
}

fn connect(ctx: &Ctx, addr: SocketAddr, w: &mut Who, clean: bool, keep: u16) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let take = w.c.is_some();
    w.story.push(format!("{} clean={}{}", if take { "takeover" } else { "connect" }, clean, if keep > 0 { " keep-alive" } else { "" }));
    let (c, sp) = Client::connect_sp(addr, &Connect::new(&w.id).clean(clean).keepalive(keep), &so).map_err(|f| w.tell(f))?;
    let want = w.ever && !clean && !w.clean;
    if sp != want {
        return Err(w.tell(c.fail(format!("CONNACK says session present {}, expected {}", sp, want))));
    }
    if let Some(old) = w.c.take() {
        old.expect_closed(WAIT).map_err(|f| w.tell(f))?;
    }
    ctx.count(if want { "resumed" } else { "fresh" }, 1);
    if !want {
        w.held.clear();
        w.maybe.clear();
    }
    w.ever = true;
    w.clean = clean;
    w.keep = keep;
    if !want && !w.bare {
        c.sub(&[(w.zed(), 2)]).map_err(|f| w.tell(f))?;
        w.held.insert(w.zed(), 2);
    }
    w.c = Some(c);
    Ok(())
}

fn ops(w: &mut Who, rng: &mut Rng) -> Res<()> {
    let Some(c) = &w.c else { return Ok(()) };
    if w.bare {
        if rng.pct(30) {
            w.story.push("sub f/a, unsub f/a".into());
            c.sub(&[("f/a", 1)]).map_err(|e| w.tell(e))?;
            c.unsub(&["f/a"]).map_err(|e| w.tell(e))?;
        }
        return Ok(());
    }
    for _ in 0..rng.range(0, 4) {
        let f = rng.pick(FILTERS).to_string();
        if rng.pct(65) {
            let q = rng.below(3) as u8;
            w.story.push(format!("sub {} {}", f, q));
            c.sub(&[(f.clone(), q)]).map_err(|e| w.tell(e))?;
            w.maybe.remove(&f);
            w.held.insert(f, q);
        } else {
            w.story.push(format!("unsub {}", f));
            c.unsub(&[f.clone()]).map_err(|e| w.tell(e))?;
            w.maybe.remove(&f);
            w.held.remove(&f);
        }
    }
    Ok(())
}

fn end(ctx: &Ctx, w: &mut Who, rng: &mut Rng) -> Res<()> {
    let Some(c) = w.c.take() else { return Ok(()) };
    // perhaps with something under way
    let mut tail = vec![];
    if !w.bare && rng.pct(35) {
        let f = rng.pick(FILTERS).to_string();
        if rng.pct(60) {
            w.story.push(format!("sub {} (not awaited)", f));
            tail.extend(subscribe(999, &[(f.clone(), rng.below(3) as u8)]));
        } else {
            w.story.push(format!("unsub {} (not awaited)", f));
            tail.extend(unsubscribe(999, &[f.clone()]));
        }
        w.held.remove(&f);
        w.maybe.insert(f);
    }
    let k = rng.below(8);
    let how = ["DISCONNECT", "close", "reset", "half-close", "protocol error", "keep-alive expiry", "close inside a packet", "DISCONNECT and reset"][k];
    match k {
        5 if w.keep == 0 => {
            w.story.push("DISCONNECT".into());
            tail.extend(disconnect());
            let _ = c.try_send(&tail);
            c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
            ctx.count("end_DISCONNECT", 1);
            return Ok(());
        }
        5 => {
            let _ = c.try_send(&tail);
            w.story.push(how.into());
            c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
        }
        0 => {
            tail.extend(disconnect());
            let _ = c.try_send(&tail);
            if rng.pct(50) {
                c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
            }
        }
        1 => {
            let _ = c.try_send(&tail);
            c.close();
        }
        2 => {
            let _ = c.try_send(&tail);
            c.abort();
        }
        3 => {
            let _ = c.try_send(&tail);
            c.half_close();
            if rng.pct(50) {
                c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
            }
        }
        4 => {
            tail.extend(*rng.pick(&[&[0xf0u8, 0][..], &[0x82, 0], &[0x36, 5, 0, 1, b'f', 0, 1], &[0x10, 0], &[0xc1, 0]]));
            let _ = c.try_send(&tail);
            if rng.pct(50) {
                c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
            }
        }
        6 => {
            tail.extend(&publish(b"f/a", b"unfinished", 1, 3, false, false)[..9]);
            let _ = c.try_send(&tail);
            c.close();
        }
        _ => {
            tail.extend(disconnect());
            let _ = c.try_send(&tail);
            c.abort();
        }
    }
    if k != 5 {
        w.story.push(how.into());
    }
    ctx.count(&format!("end_{}", how.replace(' ', "_")), 1);
    Ok(())
}

/// Everyone who is connected gets exactly what its session asks for
fn probe(ctx: &Ctx, p: &Client, ws: &[Who], n: &mut u64, rng: &mut Rng) -> Res<()> {
    let first = *n;
    let mut sent = vec![];
    for _ in 0..rng.range(2, 6) {
        let t = *rng.pick(TOPICS);
        let q = rng.below(3) as u8;
        *n += 1;
        let b = format!("m{}", n).into_bytes();
        p.publish(t, &b, q)?;
        sent.push((t, q, b));
    }
    for w in ws.iter().filter(|w| w.c.is_some() && !w.bare) {
        *n += 1;
        p.publish(w.zed(), format!("z{}", n).as_bytes(), 1)?;
        let c = w.c.as_ref().unwrap();
        let got = c.messages_until(format!("z{}", n).as_bytes()).map_err(|f| w.tell(f))?;
        for (t, q, b) in &sent {
            let max = w.held.iter().filter(|(f, _)| matches(f.as_bytes(), t.as_bytes())).map(|x| *x.1).max();
            let perhaps = w.maybe.iter().any(|f| matches(f.as_bytes(), t.as_bytes()));
            let mine: Vec<&Ev> = got.iter().filter(|e| e.msg().payload == *b).collect();
            let hint = || format!("holds {:?}{}; {} was published on {} at QoS {}", w.held, if perhaps { format!(", perhaps {:?}", w.maybe) } else { String::new() }, show(b), t, q);
            let ok = match (mine.len(), max) {
                (1, Some(g)) => perhaps || mine[0].msg().qos == g.min(*q),
                (1, None) => perhaps,
                (0, None) => true,
                _ => false,
            };
            if !ok {
                return Err(w.tell(c.fail(format!("{} and arrived {} times {:?}", hint(), mine.len(), mine.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()))));
            }
            let key = (max.is_some() || perhaps || w.ever).then(|| hash(format!("{:?} {:?} {} {}", w.story.iter().rev().take(6).collect::<Vec<_>>(), w.held, t, q).as_bytes()));
            ctx.eval(key);
        }
        // nor anything else of this probe (of earlier ones, something may be left)
        let number = |e: &Ev| String::from_utf8_lossy(&e.msg().payload).get(1..).and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
        if let Some(e) = got.iter().find(|e| e.msg().payload.first() == Some(&b'z') && number(e) > first && e.msg().topic != w.zed().as_bytes() && !w.held.contains_key("#") && !w.maybe.contains("#")) {
            return Err(w.tell(c.fail(format!("received {}", e.msg().brief()))));
        }
        ctx.count("probes", 1);
    }
    p.settle(0)
}

fn leave(c: Client, rng: &mut Rng) -> Res<&'static str> {
    Ok(match rng.below(5) {
        0 => {
            c.send(&disconnect())?;
            c.expect_closed(WAIT)?;
            "DISCONNECT"
        }
        1 => {
            c.close();
            "close"
        }
        2 => {
            c.abort();
            "reset"
        }
        3 => {
            c.half_close();
            "half-close"
        }
        _ => {
            let _ = c.try_send(&[0xf0, 0]);
            c.expect_closed(WAIT)?;
            "protocol error"
        }
    })
}

/// One session of very many filters, resumed again and again and changed in between: each of its
/// filters is probed every time
fn hoard(ctx: &Ctx, wk: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = wk.broker(&Opts { clock: CLOCK, ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(addr, &Connect::new(&format!("hp{}-{}", r, wk.index)).keepalive(0), &so)?;
    let id = format!("h{}-{}", r, wk.index);
    let size = *rng.pick(&[12usize, 25, 60, 140, 300, 700, 1500, 2500]);
    let mut held: BTreeMap<String, u8> = BTreeMap::new();
    let mut next = 0;
    let mut story: Vec<String> = vec![];
    let mut c: Option<Client> = None;
    let mut lost: Vec<String> = vec![];
    let zed = format!("hz/{}", id);
    for turn in 0..rng.range(3, 6) {
        let (now, sp) = Client::connect_sp(addr, &Connect::new(&id).clean(false).keepalive(0), &so)?;
        if sp != (turn > 0) {
            return now.bad(format!("CONNACK says session present {} (holding {} filters; {})", sp, held.len(), story.join(", ")));
        }
        if let Some(old) = c.take() {
            old.expect_closed(WAIT)?;
        }
        let tell = |f: Fail, story: &[String]| f.ctx(&format!("identifier {}: {}", id, story.join(", ")));
        let look = |now: &Client, held: &BTreeMap<String, u8>, lost: &[String], story: &[String]| -> Res<()> {
            // every filter has a topic of its own
            for (k, f) in held.keys().enumerate() {
                p.publish(f.replace('+', "w").replace('#', "v/w"), format!("p{}", k).as_bytes(), 1)?;
            }
            for t in lost {
                p.publish(t.replace('+', "w").replace('#', "v/w"), b"nobody", 1)?;
            }
            p.publish(&zed, b"zed", 1)?;
            let got = now.messages_until(b"zed").map_err(|f| tell(f, story))?;
            let mut counts: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
            for e in &got {
                counts.entry(e.msg().payload.clone()).or_default().push(e.msg().qos);
            }
            for (k, (f, q)) in held.iter().enumerate() {
                let mine = counts.remove(format!("p{}", k).as_bytes()).unwrap_or_default();
                if mine != [(*q).min(1)] {
                    return Err(tell(now.fail(format!("holds {} at QoS {} among {} filters, published to at QoS 1: copies at QoS {:?}", f, q, held.len(), mine)), story));
                }
                ctx.eval(Some(hash(format!("{:?} {} {} {}", story.iter().rev().take(4).collect::<Vec<_>>(), f, q, held.len()).as_bytes())));
            }
            if let Some((b, _)) = counts.first_key_value() {
                return Err(tell(now.fail(format!("received {}, which none of its {} filters match", show(b), held.len())), story));
            }
            Ok(())
        };
        if turn == 0 {
            now.sub(&[(zed.clone(), 1)])?;
        } else {
            look(&now, &held, &lost, &story)?;
        }
        // grow to the size (once), then change
        let mut add = vec![];
        let grow = if turn == 0 { size } else { rng.range(0, 12) };
        for _ in 0..grow {
            next += 1;
            let f = match rng.below(4) {
                0 => format!("h/{}/x{}/+", id, next),
                1 => format!("h/{}/x{}/#", id, next),
                _ => format!("h/{}/x{}", id, next),
            };
            add.push((f, rng.below(3) as u8));
        }
        for part in add.chunks(*rng.pick(&[1usize, 7, 40, 150])) {
            now.sub(part).map_err(|f| tell(f, &story))?;
            held.extend(part.iter().cloned());
        }
        lost = held.keys().filter(|_| rng.pct(if turn == 0 { 5 } else { 15 })).cloned().collect();
        for part in lost.chunks(*rng.pick(&[1usize, 7, 40])) {
            now.unsub(part).map_err(|f| tell(f, &story))?;
            for f in part {
                held.remove(f);
            }
        }
        let change: Vec<(String, u8)> = held.keys().filter_map(|f| if rng.pct(8) { Some((f.clone(), rng.below(3) as u8)) } else { None }).collect();
        for part in change.chunks(20) {
            now.sub(part).map_err(|f| tell(f, &story))?;
            held.extend(part.iter().cloned());
        }
        story.push(format!("{} filters (+{} -{} ~{})", held.len(), add.len(), lost.len(), change.len()));
        look(&now, &held, &lost, &story)?;
        if rng.pct(25) {
            story.push("taken over".into());
            c = Some(now);
        } else {
            story.push(leave(now, rng)?.into());
        }
    }
    ctx.max("most_filters_in_a_session", held.len() as u64);
    ctx.sample(|| story.join(", "));
    drop(c);
    let c = Client::simple(addr, &id)?;
    c.send(&disconnect())?;
    Ok(())
}

/// Hundreds of sessions at once, most of them of clients that are away
fn crowd(ctx: &Ctx, wk: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    wk.restart();
    let addr = wk.broker(&Opts { clock: CLOCK, ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(addr, &Connect::new("crowd-p").keepalive(0), &so)?;
    let total = *rng.pick(&[270usize, 530, 700, 1100]);
    let kind: Vec<bool> = (0..total).map(|_| rng.pct(85)).collect();
    let name = |i: usize| format!("n{}-{}", r, i);
    let mut stay: BTreeMap<usize, Client> = BTreeMap::new();
    for i in 0..total {
        let c = Client::connect(addr, &Connect::new(&name(i)).clean(!kind[i]).keepalive(0), &so)?;
        c.sub(&[(format!("one/{}", i), 1), (format!("two/{}/+", i), 2)])?;
        if rng.pct(8) {
            stay.insert(i, c);
        } else {
            leave(c, rng)?;
        }
    }
    let mut order: Vec<usize> = (0..total).collect();
    rng.shuffle(&mut order);
    for (k, &i) in order.iter().enumerate() {
        let (c, sp) = Client::connect_sp(addr, &Connect::new(&name(i)).clean(false).keepalive(0), &so)?;
        if sp != kind[i] {
            return c.bad(format!("number {} of {} sessions, resumed as number {}: CONNACK says session present {}, expected {}", i, total, k, sp, kind[i]));
        }
        if !sp {
            c.sub(&[(format!("end/{}", i), 1)])?;
        }
        p.publish(format!("one/{}", i), b"one", 1)?;
        p.publish(format!("two/{}/x", i), b"two", 2)?;
        if !sp {
            p.publish(format!("end/{}", i), b"two", 2)?;
        }
        let got = c.messages_until(b"two")?;
        let want = if kind[i] { 1 } else { 0 };
        if got.len() != want || got.iter().any(|e| e.msg().payload != b"one") {
            return c.bad(format!("number {} of {} sessions{}: received {:?}", i, total, if sp { ", resumed" } else { "" }, got.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()));
        }
        ctx.eval(Some(hash(format!("{} {} {} {}", total, i, k, sp).as_bytes())));
        if let Some(old) = stay.remove(&i) {
            old.expect_closed(WAIT)?;
        }
        leave(c, rng)?;
    }
    ctx.max("most_sessions_at_once", total as u64);
    wk.restart();
    Ok(())
}

fn round(ctx: &Ctx, wk: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 9 == 4 {
        return hoard(ctx, wk, r, rng);
    }
    if r % 60 == 7 {
        return crowd(ctx, wk, r, rng);
    }
    if r % 6 == 5 {
        wk.restart();
    }
    let pre = [None, Some((3000, 300)), None, Some((500, 3000))][(r / 6 % 4) as usize];
    let addr = wk.broker(&Opts { clock: CLOCK, preempt: pre, ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(addr, &Connect::new(&format!("p{}-{}", r, wk.index)).keepalive(0), &so)?;
    let mut ws: Vec<Who> = (0..rng.range(1, 4))
        .map(|i| Who {
            id: format!("w{}-{}-{}", r, wk.index, i),
            c: None,
            clean: true,
            ever: false,
            held: BTreeMap::new(),
            maybe: BTreeSet::new(),
            story: vec![],
            keep: 0,
            bare: rng.pct(12),
        })
        .collect();
    let mut n = 0;
    let lean = rng.pct(50);
    for _ in 0..rng.range(8, 25) {
        let i = rng.below(ws.len());
        let w = &mut ws[i];
        if w.story.len() > 60 {
            w.story.drain(..20);
        }
        if w.c.is_none() {
            if rng.pct(15) {
                // an attempt that fails changes nothing
                let mut bad = Connect::new(&w.id).clean(rng.pct(50));
                match rng.below(3) {
                    0 => bad.level = 5,
                    1 => bad.proto = b"MQTX".to_vec(),
                    _ => bad.flags = Some(3),
                }
                w.story.push("refused CONNECT".into());
                let c = Client::open(addr, &w.id, &so)?;
                let _ = c.try_send(&bad.build());
                c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
            }
            let clean = if lean { rng.pct(20) } else { rng.pct(50) };
            // a keep-alive long enough not to expire by accident: 0.5 s of real time and more
            connect(ctx, addr, w, clean, 0)?;
            if rng.pct(40) {
                probe(ctx, &p, &ws, &mut n, rng)?;
            }
        } else {
            match rng.below(10) {
                0..=2 => ops(w, rng)?,
                3 | 4 => {
                    let clean = if lean { rng.pct(20) } else { rng.pct(50) };
                    connect(ctx, addr, w, clean, 0)?;
                }
                5 => {
                    // a connection made to expire
                    let clean = rng.pct(30);
                    connect(ctx, addr, w, clean, 1)?;
                    let c = w.c.take().unwrap();
                    w.story.push("keep-alive expiry".into());
                    c.expect_closed(WAIT).map_err(|f| w.tell(f))?;
                    ctx.count("end_keep_alive_expiry", 1);
                }
                _ => {
                    ops(w, rng)?;
                    end(ctx, w, rng)?;
                }
            }
        }
        if rng.pct(60) {
            probe(ctx, &p, &ws, &mut n, rng)?;
        }
        if rng.pct(10) {
            std::thread::sleep(Duration::from_millis(rng.below(10) as u64));
        }
    }
    ctx.count("histories", 1);
    ctx.sample(|| ws[0].story.join(", "));
    for w in &mut ws {
        // leave nothing
        w.c = None;
        let c = Client::simple(addr, &w.id)?;
        c.send(&disconnect())?;
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one published message against one connected client: copies and QoS against a model of its session
         (fresh or resumed). Histories of 8-25 connects (clean or not), takeovers, subscribes, unsubscribes, refused
         CONNECTs and ends (DISCONNECT, close, reset, half-close, protocol error, keep-alive expiry, inside a packet)
         of 1-4 identifiers whose filters overlap (or that keep none); besides, sessions of up to 700 filters, grown, thinned,
         changed and resumed 3-6 times with every filter probed each time, and up to 1100 sessions at once, all resumed in
         another order; CONNACK's session-present flag is judged every time. Distinct by
         recent history, session, topic and QoS.",
    );
    ctx.assume("messages published while a client is away may or may not be delivered later (they are not stored in this tree)");
    rounds(ctx, 6, ctx.secs(22, 420), 24, round);
}

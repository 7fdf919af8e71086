//! The packets of one connection take effect in order, up to its end and not beyond.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering::*};

const ENDS: &[&str] = &[
    "DISCONNECT",
    "DISCONNECT, in a segment of its own",
    "DISCONNECT and close",
    "DISCONNECT and more packets",
    "DISCONNECT and more packets later",
    "DISCONNECT and garbage",
    "half-close",
    "half-close inside a packet",
    "close",
    "stays",
];

struct Plan {
    bytes: Vec<u8>,
    ends: Vec<usize>,
    answers: Vec<SPkt>,
    own: Vec<Msg>,
    seen: Vec<Msg>,
}

/// A random program of requests of one connection, with what it has to lead to
fn plan(rng: &mut Rng, tag: &str, len: usize, quiet: bool, big: bool, mut subs: BTreeMap<String, u8>) -> Plan {
    let mut p = Plan { bytes: vec![], ends: vec![], answers: vec![], own: vec![], seen: vec![] };
    let pool = ["a", "b", "+", "#", "a/b", "a/#", "+/b", "a/+"];
    let topics = ["a", "b", "a/b", "b/b", "a/c"];
    let mut id = rng.range(1, 50_000) as u16;
    for i in 0..len {
        id += 1;
        match rng.below(10) {
            0 | 1 if !quiet => {
                let f: Vec<(String, u8)> = (0..rng.range(1, 3)).map(|_| (format!("{}/{}", tag, rng.pick(&pool)), rng.below(3) as u8)).collect();
                p.bytes.extend(subscribe(id, &f));
                p.answers.push(SPkt::SubAck(id, f.iter().map(|x| x.1).collect()));
                subs.extend(f);
            }
            2 if !quiet => {
                let f: Vec<String> = (0..rng.range(1, 4)).map(|_| format!("{}/{}", tag, rng.pick(&pool))).collect();
                p.bytes.extend(unsubscribe(id, &f));
                p.answers.push(SPkt::UnsubAck(id));
                for x in &f {
                    subs.remove(x);
                }
            }
            3 if !quiet => {
                p.bytes.extend(pingreq());
                p.answers.push(SPkt::PingResp);
            }
            _ => {
                let q = if quiet { 0 } else { rng.below(3) as u8 };
                let t = format!("{}/{}", tag, rng.pick(&topics)).into_bytes();
                let mut body = format!("{}:", i).into_bytes();
                let pad = if big && rng.pct(10) { rng.range(10_000, 200_000) } else { rng.below(30) };
                body.extend(rng.bytes(pad));
                p.bytes.extend(publish(&t, &body, q, id, false, false));
                match q {
                    1 => p.answers.push(SPkt::PubAck(id)),
                    2 => p.answers.push(SPkt::PubRec(id)),
                    _ => {}
                }
                let m = Msg { dup: false, qos: q, retain: false, topic: t, pid: 0, payload: body };
                if let Some(g) = subs.iter().filter(|(f, _)| matches(f.as_bytes(), &m.topic)).map(|x| *x.1).max() {
                    p.own.push(Msg { qos: g.min(q), ..m.clone() });
                }
                p.seen.push(m);
            }
        }
        p.ends.push(p.bytes.len());
    }
    p
}

fn same(want: &Msg, got: &Msg) -> bool {
    want.topic == got.topic && want.payload == got.payload && want.qos == got.qos && !got.dup && !got.retain
}

fn judge_order(c: &Client, who: &str, want: &[Msg], got: &[Ev], whole: bool, story: &str) -> Res<()> {
    for (i, e) in got.iter().enumerate() {
        match want.get(i) {
            Some(m) if same(m, e.msg()) => {}
            Some(m) => return c.bad(format!("{}: {} message {} should be {} and is {}", story, who, i, m.brief(), e.msg().brief())),
            None => return c.bad(format!("{}: {} message {} should not exist: {}", story, who, i, e.msg().brief())),
        }
    }
    if whole && got.len() < want.len() {
        return c.bad(format!("{}: {} message {} of {} is missing: {}", story, who, got.len(), want.len(), want[got.len()].brief()));
    }
    Ok(())
}

fn episode(ctx: &Ctx, b: &Broker, o: &Client, k: &Client, r: u64, j: usize, rng: &mut Rng) -> Res<()> {
    let end = if j < ENDS.len() { ENDS[(j + r as usize) % ENDS.len()] } else { *rng.pick(ENDS) };
    let tag = format!("e{}x{}", r, j);
    // one whose socket is closed at once can be sent no answers: the rest of what it sent may be lost with them
    let quiet = matches!(end, "close" | "DISCONNECT and close");
    let len = match rng.below(12) {
        0 => 0,
        1 => rng.range(500, 3000),
        2 => 1,
        _ => rng.range(2, 80),
    };
    let big = rng.pct(20);
    // the session may exist already
    let mut subs = BTreeMap::new();
    let resumed = !quiet && rng.pct(25);
    if resumed {
        let c = Client::connect(b.addr, &Connect::new(&tag).clean(false), &SockOpts::default())?;
        let f: Vec<(String, u8)> = (0..rng.below(3)).map(|_| (format!("{}/{}", tag, rng.pick(&["a", "+", "#", "a/b"])), rng.below(3) as u8)).collect();
        if !f.is_empty() {
            c.sub(&f)?;
        }
        c.send(&disconnect())?;
        c.expect_closed(WAIT)?;
        subs.extend(f);
    }
    let p = plan(rng, &tag, len, quiet, big, subs);
    let tail = match end {
        "DISCONNECT and more packets" | "DISCONNECT and more packets later" => {
            let n = rng.range(1, 20);
            let t = plan(rng, &tag, n, false, false, BTreeMap::new());
            let mut x = publish(format!("{}/a", tag).as_bytes(), b"after the end", rng.below(3) as u8, 60_000, false, false);
            x.extend(t.bytes);
            x
        }
        "DISCONNECT and garbage" => { let n = rng.range(1, 300); rng.bytes(n) }
        _ => vec![],
    };
    let mut bytes = p.bytes.clone();
    let mut later = vec![];
    match end {
        "DISCONNECT" | "DISCONNECT and close" => bytes.extend(disconnect()),
        "DISCONNECT, in a segment of its own" => later = disconnect(),
        "DISCONNECT and more packets" | "DISCONNECT and garbage" => {
            bytes.extend(disconnect());
            bytes.extend(&tail);
        }
        "DISCONNECT and more packets later" => {
            bytes.extend(disconnect());
            later = tail.clone();
        }
        "half-close inside a packet" => {
            let x = publish(format!("{}/a", tag).as_bytes(), b"unfinished", rng.below(3) as u8, 60_000, false, false);
            bytes.extend(&x[..rng.range(1, x.len() - 1)]);
        }
        _ => {}
    }
    // the CONNECT may come in the same segment
    let pipelined = rng.pct(30);
    let id = if rng.pct(30) && !resumed { "x".to_string() } else { tag.clone() };
    let mut c = Connect::new(&id).clean(!resumed);
    if rng.pct(30) {
        c.will = Some((format!("{}/a", tag).into_bytes(), b"will".to_vec(), 1, false));
    }
    let so = SockOpts { rcvbuf: rng.pct(10).then_some(32 * 1024), ..Default::default() };
    let x = Client::open(b.addr, &tag, &so)?;
    let story = format!("{} requests{}{}{}, then {}", len, if resumed { " of a session resumed" } else { "" }, if pipelined { " behind the CONNECT" } else { "" }, if big { ", some large" } else { "" }, end);
    if pipelined {
        let mut y = c.build();
        y.extend(bytes);
        bytes = y;
    } else {
        x.send(&c.build())?;
        if x.expect_connack()? != resumed {
            return x.bad(format!("{}: session present is {}", story, !resumed));
        }
    }
    // in one segment or several; what follows the end may find the connection closed
    let mut at = 0;
    let cuts = if rng.pct(50) { 0 } else { rng.range(1, 6) };
    let mut offs: Vec<usize> = (0..cuts).map(|_| rng.below(bytes.len() + 1)).collect();
    offs.push(bytes.len());
    offs.sort();
    for o in offs {
        if o > at {
            let r = x.try_send(&bytes[at..o]);
            if r.is_err() && tail.is_empty() {
                return x.bad(format!("{}: the broker has closed the connection too early", story));
            }
            at = o;
        }
    }
    match end {
        "half-close" | "half-close inside a packet" => x.half_close(),
        "close" | "DISCONNECT and close" => {
            if pipelined {
                // its CONNACK has to have come, for the same reason
                x.expect_connack()?;
            }
            x.close()
        }
        _ => {}
    }
    if !later.is_empty() {
        if rng.pct(50) {
            std::thread::sleep(std::time::Duration::from_micros(rng.below(3000) as u64));
        }
        let r = x.try_send(&later);
        if r.is_err() && tail.is_empty() {
            return x.bad(format!("{}: the broker has closed the connection before the DISCONNECT", story));
        }
    }
    let mut want = p.answers.clone();
    if pipelined && !quiet {
        want.insert(0, SPkt::ConnAck { present: resumed, code: 0 });
    }
    let mut own_whole = false;
    match end {
        "stays" => {
            // a last message to itself, and a last answer
            let fin = subscribe(65_000, &[(format!("{}/fin", tag), 0)]);
            x.send(&fin)?;
            x.send(&publish(format!("{}/fin", tag).as_bytes(), b"fin", 0, 0, false, false))?;
            x.send(&pingreq())?;
            want.push(SPkt::SubAck(65_000, vec![0]));
            want.push(SPkt::PingResp);
            for (i, a) in want.iter().enumerate() {
                let e = x.answer()?;
                if e.pkt != *a {
                    return x.bad(format!("{}: answer {} should be {} and is {}", story, i, a.brief(), e.pkt.brief()));
                }
            }
            let m = x.messages_until(b"fin")?;
            judge_order(&x, "its own", &p.own, &m, true, &story)?;
            own_whole = true;
        }
        "close" | "DISCONNECT and close" => {}
        _ => {
            x.expect_closed(WAIT).map_err(|f| f.ctx(&story))?;
            let got = x.take_answers();
            for (i, e) in got.iter().enumerate() {
                if want.get(i) != Some(&e.pkt) {
                    return x.bad(format!("{}: answer {} should be {} and is {}", story, i, want.get(i).map_or("missing".into(), |a| a.brief()), e.pkt.brief()));
                }
            }
            // a reset may destroy answers that are under way
            if got.len() < want.len() && tail.is_empty() {
                return x.bad(format!("{}: answer {} of {} is missing: {}", story, got.len(), want.len(), want[got.len()].brief()));
            }
            judge_order(&x, "its own", &p.own, &x.take_msgs(), false, &story)?;
        }
    }
    // what others see of it
    let mut seen = vec![];
    if quiet {
        while seen.len() < p.seen.len() {
            let e = o.message().map_err(|f| f.ctx(&format!("{}: after {} of {} messages", story, seen.len(), p.seen.len())))?;
            seen.push(e);
        }
    }
    let z = format!("z{}", tag);
    k.publish("k", z.as_bytes(), 1)?;
    k.answer()?;
    seen.extend(o.messages_until(z.as_bytes())?);
    if own_whole {
        seen.retain(|e| e.msg().payload != b"fin");
    }
    judge_order(o, "the observer's", &p.seen, &seen, true, &story)?;
    for (i, m) in p.seen.iter().enumerate() {
        ctx.eval(Some(hash(format!("{} {} {} {} {}", end, i, len, m.qos, pipelined).as_bytes())));
    }
    ctx.eval(Some(hash(format!("{} {} {} {}", story, cuts, p.answers.len(), p.own.len()).as_bytes())));
    ctx.count(&format!("ended_by_{}", end.replace(',', "").replace(' ', "_")), 1);
    ctx.count("answers_compared", p.answers.len() as u64);
    ctx.count("messages_compared", (p.seen.len() + p.own.len()) as u64);
    ctx.max("longest_program", len as u64);
    ctx.sample(|| story.clone());
    Ok(())
}

/// It sends much and closes its sending side; the answers that have not left the broker by then still come
fn behind(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts { sndbuf: Some(8192), ..Default::default() })?;
    for k in 0..4 {
        let x = Client::open(b.addr, &format!("behind{}-{}", r, k), &SockOpts { rcvbuf: Some(32 * 1024), ..Default::default() })?;
        x.send(&Connect::new(&format!("b{}", k)).build())?;
        x.expect_connack()?;
        x.pause(true);
        std::thread::sleep(std::time::Duration::from_millis(3));
        let (n, per) = *rng.pick(&[(300usize, 1000usize), (900, 400), (1500, 300), (60, 3000), (3000, 100)]);
        let mut want = vec![];
        let mut bytes = vec![];
        for i in 0..n {
            let id = 1 + i as u16;
            let f: Vec<(String, u8)> = (0..per).map(|j| (format!("f/{}", j % 50), (i + j) as u8 % 3)).collect();
            bytes.extend(subscribe(id, &f));
            want.push(SPkt::SubAck(id, f.iter().map(|f| f.1).collect()));
            if i % 16 == 15 || i + 1 == n {
                x.send(&bytes)?;
                bytes.clear();
            }
        }
        x.send(&pingreq())?;
        want.push(SPkt::PingResp);
        x.half_close();
        // a moment until the broker has noticed
        let t = now();
        std::thread::sleep(std::time::Duration::from_millis(rng.range(20, 150) as u64));
        x.pause(false);
        if now() - t > 400_000_000 {
            // longer than the second it has for its last words, perhaps
            ctx.count("reader_too_slow", 1);
            continue;
        }
        x.expect_closed(WAIT)?;
        let got = x.take_answers();
        if got.len() < want.len() && now() - t > 800_000_000 {
            ctx.count("reader_too_slow", 1);
            continue;
        }
        for (i, a) in want.iter().enumerate() {
            if got.get(i).map(|e| &e.pkt) != Some(a) {
                return x.bad(format!("{} SUBSCRIBEs of {} filters, then half-close: {} answers of {}, number {} is {}", n, per, got.len(), want.len(), i, got.get(i).map_or("missing".into(), |e| e.pkt.brief())));
            }
        }
        ctx.count("answers_after_half_close", want.len() as u64);
        ctx.eval(Some(hash(format!("behind {} {} {}", n, per, k).as_bytes())));
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 5 == 4 {
        return behind(ctx, r, rng);
    }
    w.restart();
    let pre = [None, None, Some((3000, 300)), Some((20_000, 60))][(r % 4) as usize];
    let b: &Broker = w.broker(&Opts { preempt: pre, sndbuf: (r % 5 == 2).then_some(8192), ..Default::default() })?;
    let so = SockOpts { auto_ack: true, ..Default::default() };
    let o = Client::connect(b.addr, &Connect::new("observer"), &so)?;
    o.sub(&[("+/#", 2)])?;
    let k = Client::connect(b.addr, &Connect::new("marker"), &so)?;
    // others keep the command queue full
    let busy = r % 3 == 1;
    let stop = AtomicBool::new(false);
    let addr = b.addr;
    let res = std::thread::scope(|s| {
        if busy {
            for i in 0..2 {
                let stop = &stop;
                s.spawn(move || {
                    let Ok(c) = Client::simple(addr, &format!("busy{}", i)) else { return };
                    let bytes = publish(b"$noise", b"noise", 0, 0, false, false).repeat(50);
                    while !stop.load(SeqCst) && (&*c.sock).write_all(&bytes).is_ok() {}
                });
            }
        }
        let mut go = || -> Res<()> {
            for j in 0..if busy { 14 } else { 40 } {
                episode(ctx, b, &o, &k, r, j, rng)?;
                if ctx.stopped() {
                    break;
                }
            }
            Ok(())
        };
        let res = go();
        stop.store(true, SeqCst);
        res
    });
    if busy {
        ctx.count("rounds_with_a_busy_command_queue", 1);
    }
    res?;
    if let Some(m) = b.reports().first() {
        viol!("the broker reported:\n{}", m);
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one message (or program) of one connection whose requests - SUBSCRIBE, UNSUBSCRIBE, PUBLISH at each
         QoS, PINGREQ, up to 3000 of them, in one segment or several, with the CONNECT (of a new session or one resumed) or after it - are not waited for: its
         answers, its own messages and an observer's messages have to be those of executing them one after the other. Then
         one of ten ends (DISCONNECT alone, with packets or garbage behind it, half-close, close, none): everything before
         the end has to have taken effect, nothing behind it may. Distinct by (end, position, length, QoS, CONNECT).",
    );
    ctx.assume("a client that half-closes reads its answers within about a second");
    ctx.assume("where the broker has to close a connection with unread bytes behind the DISCONNECT, a reset may destroy answers under way");
    rounds(ctx, 6, ctx.secs(20, 300), 18, round);
}

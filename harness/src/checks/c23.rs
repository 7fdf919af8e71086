//! Under load, everyone still makes progress.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::io::Write;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// However much else arrives, an answer or a message is due within this time
const FIRM: Option<Duration> = Some(Duration::from_secs(12));

/// Write the same bytes until told to stop
fn flood(c: &Client, b: &[u8], stop: &AtomicBool, sent: &AtomicU64, per: u64) {
    while !stop.load(SeqCst) && !c.is_closed() {
        if (&*c.sock).write_all(b).is_err() {
            break;
        }
        sent.fetch_add(per, Relaxed);
    }
}

fn took(ctx: &Ctx, what: &str, t: Instant, flooded: &AtomicU64) {
    ctx.count(&format!("{}_under_flood", what), 1);
    ctx.max(&format!("slowest_{}_ms", what), t.elapsed().as_millis() as u64);
    ctx.eval(Some(hash(format!("{} {}", what, flooded.load(Relaxed)).as_bytes())));
}

/// A request of any kind, answered
fn request(ctx: &Ctx, c: &Client, w: &Client, tag: &str, n: u64, rng: &mut Rng, flooded: &AtomicU64) -> Res<()> {
    let t = Instant::now();
    let what = match rng.below(5) {
        0 => {
            c.ping()?;
            "ping"
        }
        1 => {
            c.sub(&[(format!("x/{}/{}", tag, n % 7), (n % 3) as u8)])?;
            "subscribe"
        }
        2 => {
            c.unsub(&[format!("x/{}/{}", tag, n % 7)])?;
            "unsubscribe"
        }
        k => {
            let q = (k - 2) as u8;
            let b = format!("{} {}", tag, n).into_bytes();
            let id = c.publish(format!("w/{}", tag), &b, q)?;
            let a = c.answer()?.pkt;
            if a != (if q == 1 { SPkt::PubAck(id) } else { SPkt::PubRec(id) }) {
                return c.bad(format!("PUBLISH({}) at QoS {} was answered by {}", id, q, a.brief()));
            }
            if q == 2 {
                c.send(&pubrel(id))?;
                let a = c.answer()?.pkt;
                if a != SPkt::PubComp(id) {
                    return c.bad(format!("PUBREL({}) was answered by {}", id, a.brief()));
                }
            }
            // and it arrives
            let m = w.message().map_err(|f| f.ctx("what was published under load does not arrive"))?;
            if m.msg().payload != b {
                return w.bad(format!("expected {}, got {}", show(&b), m.msg().brief()));
            }
            "publish"
        }
    };
    took(ctx, what, t, flooded);
    Ok(())
}

/// One client is flooded with messages, reads them, and goes on making requests
fn receiving(ctx: &Ctx, addr: SocketAddr, r: u64, rng: &mut Rng, time: Duration) -> Res<()> {
    let tag = format!("r{}", r);
    let q = rng.below(3) as u8;
    let v = Client::connect(addr, &Connect::new(&format!("v{}", r)), &SockOpts { auto_ack: true, discard: true, firm: FIRM, ..Default::default() })?;
    let w = Client::connect(addr, &Connect::new(&format!("w{}", r)), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
    w.sub(&[(format!("w/{}", tag), 2)])?;
    v.sub(&[(format!("f/{}/#", tag), q)])?;
    // handshakes of its own that it leaves open
    let open = *rng.pick(&[0usize, 0, 60, 3000]);
    for i in 0..open {
        v.send(&publish(b"nobody/hears", b"x", 2, 20_000 + i as u16, false, false))?;
    }
    for _ in 0..open {
        v.answer()?;
    }
    let n = rng.range(1, 4);
    let size = *rng.pick(&[0usize, 5, 60, 1000, 9000, 100_000]);
    let per = (65536 / (size + 20)).clamp(1, 500);
    let fs = (0..n).map(|i| Client::connect(addr, &Connect::new(&format!("f{}-{}", r, i)), &SockOpts { discard: true, firm: FIRM, ..Default::default() })).collect::<Res<Vec<_>>>()?;
    let (stop, sent) = (AtomicBool::new(false), AtomicU64::new(0));
    let fq = rng.below(2) as u8;
    let mut res = Ok(());
    std::thread::scope(|s| {
        for (i, f) in fs.iter().enumerate() {
            let (stop, sent, tag) = (&stop, &sent, &tag);
            s.spawn(move || {
                let b = publish(format!("f/{}/{}", tag, i).as_bytes(), &vec![b'f'; size], fq, 3, false, false).repeat(per);
                flood(f, &b, stop, sent, per as u64)
            });
        }
        res = (|| -> Res<()> {
            let t0 = Instant::now();
            let mut k = 0;
            let mut last = v.seen();
            while t0.elapsed() < time || k < 5 {
                k += 1;
                request(ctx, &v, &w, &tag, k, rng, &sent)?;
                std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
            }
            // and the messages go on arriving
            let t = Instant::now();
            while v.seen() <= last + 10 {
                if t.elapsed() > WAIT {
                    return Err(silence(v.fail(format!("flooded with messages of {} bytes, it received {} and then nothing for {} s", size, v.seen(), WAIT.as_secs()))));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            last = v.seen();
            ctx.count("messages_received_under_flood", last);
            Ok(())
        })();
        stop.store(true, SeqCst);
        for f in &fs {
            f.close();
        }
    });
    ctx.count("flood_messages", sent.load(Relaxed));
    ctx.sample(|| format!("receiving: {} flooders, {} bytes, QoS {}/{}, {} messages sent, {} received", n, size, fq, q, sent.load(Relaxed), v.seen()));
    res.map_err(|f| f.ctx(&format!("while {} clients flood it with messages of {} bytes", n, size)))
}

/// One client has very much waiting for it, unread or unacknowledged, and goes on making requests
fn hoarding(ctx: &Ctx, addr: SocketAddr, r: u64, rng: &mut Rng) -> Res<()> {
    let tag = format!("h{}", r);
    let q = rng.below(2) as u8;
    let deaf = q == 0 || rng.pct(50);
    let so = SockOpts { discard: true, firm: FIRM, rcvbuf: deaf.then_some(32 * 1024), ..Default::default() };
    let v = Client::connect(addr, &Connect::new(&format!("v{}", r)), &so)?;
    let w = Client::connect(addr, &Connect::new(&format!("w{}", r)), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
    w.sub(&[(format!("w/{}", tag), 2)])?;
    v.sub(&[(format!("f/{}/#", tag), q)])?;
    // handshakes of its own that it leaves open
    let open = *rng.pick(&[0usize, 60, 2000]);
    for i in 0..open {
        v.send(&publish(b"nobody/hears", b"x", 2, 20_000 + i as u16, false, false))?;
    }
    for _ in 0..open {
        v.answer()?;
    }
    if deaf {
        v.pause(true);
    }
    let total = *rng.pick(&[1000usize, 25_000, 60_000, 90_000]);
    let f = Client::connect(addr, &Connect::new(&format!("f{}", r)), &SockOpts { auto_pub: true, firm: FIRM, ..Default::default() })?;
    let mut n = 0;
    let none = AtomicU64::new(0);
    let what = format!("with {} messages at QoS {} for it {} and {} handshakes open", total, q, if deaf { "unread" } else { "not acknowledged" }, open);
    let mut k = 0u64;
    while n < total {
        let mut b = vec![];
        for i in 0..1000 {
            b.extend(publish(format!("f/{}/x", tag).as_bytes(), b"hoard", 1, 1 + i, false, false));
        }
        f.sh.m.lock().unwrap().pending.extend((1..=1000).map(|i| (i, 1)));
        f.send(&b)?;
        f.settle(0)?;
        n += 1000;
        if n % 5000 == 0 || n == total {
            k += 1;
            if !deaf {
                request(ctx, &v, &w, &tag, k, rng, &none).map_err(|f| f.ctx(&what))?;
                continue;
            }
            // its answers wait behind the messages, but what it publishes need not wait
            let t = Instant::now();
            let body = format!("{} {}", tag, k).into_bytes();
            let q = rng.below(3) as u8;
            v.send(&[publish(format!("w/{}", tag).as_bytes(), &body, q, 1000 + k as u16, false, false), pingreq()].concat())?;
            let m = w.message().map_err(|f| f.ctx(&format!("{}: what it publishes does not arrive", what)))?;
            if m.msg().payload != body {
                return w.bad(format!("expected {}, got {}", show(&body), m.msg().brief()));
            }
            took(ctx, "publish", t, &AtomicU64::new(n as u64));
        }
    }
    v.pause(false);
    let max = if q == 1 { total.min(65535) } else { total };
    let t = Instant::now();
    while (v.seen() as usize) < max {
        if t.elapsed() > WAIT || v.is_closed() {
            return Err(silence(v.fail(format!("{}: {} of {} arrived", what, v.seen(), max))));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if deaf {
        let due = k as usize;
        let pongs = || v.sh.m.lock().unwrap().answers.iter().filter(|a| a.pkt == SPkt::PingResp).count();
        let t = Instant::now();
        while pongs() < due {
            if t.elapsed() > WAIT || v.is_closed() {
                return Err(silence(v.fail(format!("{}: {} PINGREQ were answered by {} PINGRESP", what, due, pongs()))));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        v.take_answers();
    }
    request(ctx, &v, &w, &tag, k + 1, rng, &none).map_err(|f| f.ctx(&what))?;
    // nor do others mind
    let c = Client::simple(addr, &format!("c{}", r))?;
    request(ctx, &c, &w, &tag, k + 2, rng, &none).map_err(|f| f.ctx(&what))?;
    ctx.count("messages_hoarded", total as u64);
    ctx.eval(Some(hash(what.as_bytes())));
    Ok(())
}

/// One client floods the broker, and messages for it still arrive, in order
fn sending(ctx: &Ctx, addr: SocketAddr, r: u64, rng: &mut Rng, time: Duration) -> Res<()> {
    let tag = format!("s{}", r);
    let v = Client::connect(addr, &Connect::new(&format!("v{}", r)), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
    let o = Client::connect(addr, &Connect::new(&format!("o{}", r)), &SockOpts { auto_ack: true, auto_pub: true, firm: FIRM, ..Default::default() })?;
    let topic = format!("m/{}", tag);
    // at QoS 0: nothing to acknowledge, so that only the flood writes to the socket
    v.sub(&[(topic.clone(), 0)])?;
    let kinds = ["PINGREQ", "PUBLISH 0", "PUBLISH 1", "PUBREL", "SUBSCRIBE", "large PUBLISH", "PUBACK"];
    let kind = *rng.pick(&kinds);
    let b = match kind {
        "PINGREQ" => pingreq().repeat(2000),
        "PUBLISH 0" => publish(b"nobody/hears", b"x", 0, 0, false, false).repeat(300),
        "PUBLISH 1" => publish(b"nobody/hears", b"x", 1, 7, false, false).repeat(300),
        "PUBREL" => pubrel(7).repeat(1000),
        "SUBSCRIBE" => subscribe(7, &[("nothing/here", 1)]).repeat(100),
        "PUBACK" => puback(7).repeat(1000),
        _ => publish(b"nobody/hears", &vec![b'x'; 400_000], 0, 0, false, false),
    };
    let (stop, sent) = (AtomicBool::new(false), AtomicU64::new(0));
    let mut res = Ok(());
    std::thread::scope(|s| {
        let (v, stop, sent) = (&v, &stop, &sent);
        s.spawn(move || flood(v, &b, stop, sent, 1));
        // the answers pile up unread otherwise
        s.spawn(move || {
            while !stop.load(SeqCst) {
                ctx.count("answers_to_floods", v.take_answers().len() as u64);
                std::thread::sleep(Duration::from_millis(5));
            }
        });
        res = (|| -> Res<()> {
            let t0 = Instant::now();
            let mut k = 0u64;
            while t0.elapsed() < time || k < 5 {
                k += 1;
                let t = Instant::now();
                let b = format!("{} {}", tag, k).into_bytes();
                o.publish(&topic, &b, rng.below(3) as u8)?;
                let m = v.message()?;
                if m.msg().payload != b {
                    return v.bad(format!("expected {}, got {}", show(&b), m.msg().brief()));
                }
                o.settle(0)?;
                took(ctx, "delivery", t, sent);
                std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
            }
            Ok(())
        })();
        stop.store(true, SeqCst);
        if res.is_err() {
            v.close();
        }
    });
    ctx.count("flood_segments", sent.load(Relaxed));
    ctx.count(&format!("flooding_with_{}", kind.replace(' ', "_")), 1);
    res.map_err(|f| f.ctx(&format!("while the client itself floods the broker with {}", kind)))
}

/// The broker as a whole is busy; strangers come, work and go
fn strangers(ctx: &Ctx, addr: SocketAddr, r: u64, rng: &mut Rng, time: Duration) -> Res<()> {
    let n = rng.range(2, 6);
    let (stop, sent) = (AtomicBool::new(false), AtomicU64::new(0));
    let fs = (0..n).map(|i| Client::connect(addr, &Connect::new(&format!("f{}-{}", r, i)), &SockOpts { discard: true, auto_ack: true, firm: FIRM, ..Default::default() })).collect::<Res<Vec<_>>>()?;
    for (i, f) in fs.iter().enumerate() {
        f.sub(&[(format!("f{}/{}", r, i), rng.below(3) as u8)])?;
    }
    let mut res = Ok(());
    std::thread::scope(|s| {
        for (i, f) in fs.iter().enumerate() {
            let (stop, sent) = (&stop, &sent);
            let b = publish(format!("f{}/{}", r, (i + 1) % n).as_bytes(), &vec![b'f'; 30 + 200 * (i % 3)], 0, 0, false, false).repeat(100);
            s.spawn(move || flood(f, &b, stop, sent, 100));
        }
        res = (|| -> Res<()> {
            let t0 = Instant::now();
            let mut k = 0;
            while t0.elapsed() < time || k < 3 {
                k += 1;
                let tag = format!("t{}-{}", r, k);
                let id = format!("stranger{}-{}", r, rng.below(2));
                let t = Instant::now();
                let w = Client::connect(addr, &Connect::new(&tag), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
                w.sub(&[(format!("w/{}", tag), 2)])?;
                let c = Client::connect(addr, &Connect::new(&id), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
                took(ctx, "connect", t, &sent);
                for j in 0..4 {
                    request(ctx, &c, &w, &tag, k * 10 + j, rng, &sent)?;
                }
                let t = Instant::now();
                if rng.pct(50) {
                    let c2 = Client::connect(addr, &Connect::new(&id), &SockOpts { auto_ack: true, firm: FIRM, ..Default::default() })?;
                    c.expect_closed(WAIT)?;
                    request(ctx, &c2, &w, &tag, k * 10 + 9, rng, &sent)?;
                    took(ctx, "takeover", t, &sent);
                } else {
                    c.send(&disconnect())?;
                    c.expect_closed(WAIT)?;
                    took(ctx, "disconnect", t, &sent);
                }
            }
            Ok(())
        })();
        stop.store(true, SeqCst);
        for f in &fs {
            f.close();
        }
    });
    ctx.count("flood_messages", sent.load(Relaxed));
    res.map_err(|f| f.ctx(&format!("while {} other clients publish at full speed", n)))
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 4 == 3 {
        w.restart();
    }
    let addr = w.broker(&Opts::default())?.addr;
    let time = Duration::from_millis(rng.range(400, 1500) as u64);
    match r % 6 {
        5 => hoarding(ctx, addr, r, rng),
        0 | 3 => receiving(ctx, addr, r, rng, time),
        1 | 4 => sending(ctx, addr, r, rng, time),
        _ => strangers(ctx, addr, r, rng, time),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one request answered, message delivered, connection accepted, taken over or ended while a flood
         was going on: into the client that asks (1-4 publishers at full speed, messages of 0 to 100000 bytes), or up to 90000 messages lie unread or unacknowledged, out
         of it (seven kinds of packets), or between others. Each has 12 s, and the flood does not stop before it is
         done; the slowest of each kind is in the evidence. Distinct by kind and position in the flood.",
    );
    rounds(ctx, 2, ctx.secs(20, 300), 10, round);
}

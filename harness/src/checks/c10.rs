//! What the broker writes is always a well-formed stream.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};

/// Payload lengths that put the remaining length of a PUBLISH right at its boundaries
fn around(target: usize, topic: &str, qos: u8) -> usize {
    target.saturating_sub(2 + topic.len() + if qos > 0 { 2 } else { 0 })
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let sndbuf = *rng.pick(&[None, Some(2304), Some(4608), Some(9216), Some(30000)]);
    let pre = (r % 3 == 2).then_some((3000, 200));
    // writes that are done in part only, often of a single byte
    let short = (r % 3 == 1).then(|| *rng.pick(&[50, 300, 900]));
    let b = w.broker(&Opts { sndbuf, preempt: pre, short, ..Default::default() })?;
    let addr = b.addr;
    let piecemeal = rng.pct(40);
    let p = Client::connect(addr, &Connect::new("p"), &SockOpts { auto_pub: true, auto_ack: true, ..Default::default() })?;
    let mut subs = vec![];
    for i in 0..rng.range(1, 3) {
        let so = SockOpts {
            auto_ack: rng.pct(70),
            rcvbuf: (piecemeal && rng.pct(50)).then(|| *rng.pick(&[2304, 4608, 20000])),
            ..Default::default()
        };
        let c = Client::connect(addr, &Connect::new(&format!("s{}", i)), &so)?;
        let q = rng.below(3) as u8;
        c.sub(&[("w/#", q)])?;
        subs.push(c);
    }
    // from here on they read in small pieces, slowly, or not at all for a while
    for c in &subs {
        match rng.below(4) {
            0 if piecemeal => c.set_chunk(rng.range(1, 7), 0),
            1 => c.set_chunk(rng.range(500, 20000), rng.below(100) as u64),
            2 => c.pause(true),
            _ => {}
        }
    }
    let limits = [128usize, 16384, 2097152];
    let mut sizes: Vec<usize> = vec![];
    let mut topics: Vec<String> = vec![];
    let mut budget: usize = if piecemeal { 40_000 } else if sndbuf.is_some_and(|n| n < 9000) { 150_000 } else { 3 << 20 };
    let mut asked: Vec<Vec<SPkt>> = subs.iter().map(|_| vec![]).collect();
    for i in 0..rng.range(5, 40) {
        let q = rng.below(3) as u8;
        let part = *rng.pick(&["t", "t", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
        let t = format!("w/{}", part.repeat(if rng.pct(3) { rng.range(1000, 10000) } else { rng.below(30) }));
        let l = limits[if rng.pct(8) { 2 } else { rng.below(2) }];
        let n = match rng.below(4) {
            0 => rng.below(300),
            1 => rng.below(20000),
            _ => around(l - 4 + rng.below(8), &t, q),
        };
        if n > budget {
            continue;
        }
        budget -= n;
        sizes.push(n);
        topics.push(t.clone());
        p.publish(&t, &rng.bytes(n), q)?;
        // requests of their own in between
        for (c, ask) in subs.iter().zip(&mut asked) {
            let id = 40000 + i as u16;
            match rng.below(8) {
                0 => {
                    c.send(&pingreq())?;
                    ask.push(SPkt::PingResp);
                }
                1 => {
                    // a SUBACK around the boundaries, too
                    let k = *rng.pick(&[1usize, 2, 100, 124, 125, 126, 127, 128, 300, 3000]);
                    let f: Vec<(&str, u8)> = (0..k).map(|i| if i % 3 == 0 { ("bad#", 0) } else { ("v/x", (i % 3) as u8) }).collect();
                    c.send(&subscribe(id, &f))?;
                    ask.push(SPkt::SubAck(id, f.iter().map(|x| if x.0 == "bad#" { 0x80 } else { x.1 }).collect()));
                }
                2 => {
                    c.send(&[unsubscribe(id, &["v/x"]), pubrel(id)].concat())?;
                    ask.push(SPkt::UnsubAck(id));
                    ask.push(SPkt::PubComp(id));
                }
                _ => {}
            }
        }
        if i % 10 == 9 {
            p.settle(0)?;
        }
    }
    p.settle(0)?;
    p.publish("w/end", b"the end", 0)?;
    p.ping()?;
    for (c, ask) in subs.iter().zip(&asked) {
        c.pause(false);
        let got = c.messages_until(b"the end")?;
        if got.len() != sizes.len() {
            return c.bad(format!("{} messages instead of {}", got.len(), sizes.len()));
        }
        for (e, n) in got.iter().zip(&sizes) {
            if e.msg().payload.len() != *n {
                return c.bad(format!("a payload of {} bytes arrived with {}", n, e.msg().payload.len()));
            }
        }
        if let Some((e, t)) = got.iter().zip(&topics).find(|(e, t)| e.msg().topic != t.as_bytes()) {
            return c.bad(format!("a message on {} arrived as {}", show(t.as_bytes()), e.msg().brief()));
        }
        for want in ask {
            // with manual handshakes, none is due here: acknowledgements are never sent
            let a = c.answer()?.pkt;
            if a != *want {
                return c.bad(format!("expected {}, got {}", want.brief(), a.brief()));
            }
        }
        c.ping()?;
        if let Some(m) = c.malformed() {
            return c.bad(m);
        }
        let st = c.sh.m.lock().unwrap();
        ctx.count("packets_decoded", st.n);
        ctx.count("bytes_decoded", st.rx_bytes);
        drop(st);
        for n in &sizes {
            ctx.eval(Some(hash(format!("{} {:?} {}", n, sndbuf, ask.len()).as_bytes())));
        }
        ctx.sample(|| format!("payloads {:?}, broker's send buffer {:?}, answers in between: {}", sizes, sndbuf, ask.len()));
    }
    w.restart();
    Ok(())
}

/// Megabytes wait for a client that does not read, among small packets
fn huge(ctx: &Ctx, w: &mut Worker, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts { sndbuf: rng.pct(50).then_some(100_000), ..Default::default() })?.addr;
    let p = Client::connect(addr, &Connect::new("p"), &SockOpts { auto_pub: true, auto_ack: true, ..Default::default() })?;
    let c = Client::connect(addr, &Connect::new("s"), &SockOpts { auto_ack: true, rcvbuf: Some(200_000), ..Default::default() })?;
    c.sub(&[("w/#", 2)])?;
    c.pause(true);
    let mut sent = vec![];
    let mut asked = vec![];
    for i in 0..rng.range(4, 9) {
        let n = if i == 1 { rng.range(17 << 20, 19 << 20) } else if rng.pct(40) { rng.range(1 << 20, 9 << 20) } else { rng.below(3000) };
        let body = rng.bytes(n);
        let t = format!("w/{}{}", i, rng.pick(&["t", "\u{20ac}\u{1f600}"]));
        sent.push((t.clone(), n, hash(&body)));
        p.publish(&t, &body, rng.below(3) as u8)?;
        if i != 1 && rng.pct(50) {
            c.send(&subscribe(i as u16 + 1, &[("v", 1), ("v#", 2)]))?;
            asked.push(SPkt::SubAck(i as u16 + 1, vec![1, 0x80]));
        }
    }
    p.settle(0)?;
    p.publish("w/end", b"the end", 0)?;
    p.ping()?;
    c.pause(false);
    let got = c.messages_until(b"the end")?;
    if got.len() != sent.len() {
        return c.bad(format!("{} messages instead of {}", got.len(), sent.len()));
    }
    for (e, (t, n, h)) in got.iter().zip(&sent) {
        let m = e.msg();
        if m.topic != t.as_bytes() || m.payload.len() != *n || hash(&m.payload) != *h {
            return c.bad(format!("a payload of {} bytes on {} arrived as {}", n, show(t.as_bytes()), m.brief()));
        }
        ctx.eval(Some(*h));
        ctx.max("largest_payload", *n as u64);
    }
    for want in asked {
        let a = c.answer()?.pkt;
        if a != want {
            return c.bad(format!("expected {}, got {}", want.brief(), a.brief()));
        }
    }
    c.ping()?;
    ctx.count("streams_of_megabytes", 1);
    w.restart();
    Ok(())
}

/// Thousands of packets wait for a client that stops: whatever still reaches it is the beginning of
/// the stream, with nothing left out and nothing added
fn ending(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts { sndbuf: Some(*rng.pick(&[2304, 9216, 40_000])), ..Default::default() })?.addr;
    let p = Client::connect(addr, &Connect::new("p"), &SockOpts { auto_pub: true, ..Default::default() })?;
    let id = format!("e{}", r);
    let c = Client::connect(addr, &Connect::new(&id), &SockOpts { rcvbuf: Some(*rng.pick(&[2304, 9216, 60_000])), ..Default::default() })?;
    let q = rng.below(2) as u8;
    c.sub(&[("w/#", q)])?;
    c.pause(true);
    let n = *rng.pick(&[300usize, 2000, 4500, 9000, 20_000]);
    let pad = "y".repeat(if rng.pct(50) { 0 } else { rng.range(1, 200) });
    let mut pings = 0;
    for i in 0..n {
        p.publish("w/x", format!("{}{}", i, pad).as_bytes(), q)?;
        if i % 500 == 499 {
            p.settle(0)?;
        }
        if i % (n / 5) == 1 {
            c.send(&pingreq())?;
            pings += 1;
        }
    }
    p.settle(0)?;
    p.ping()?;
    let how = rng.below(5);
    let what = match how {
        0 => {
            c.send(&disconnect())?;
            "DISCONNECT"
        }
        1 => {
            c.send(&raw(0x32, &[0, 1, b'+', 0, 1]))?;
            "a malformed packet"
        }
        2 => {
            c.half_close();
            "half-close"
        }
        3 => {
            c.send(&Connect::new("twice").build())?;
            "second CONNECT"
        }
        _ => {
            let t = Client::connect(addr, &Connect::new(&id), &SockOpts::default())?;
            t.ping()?;
            "takeover"
        }
    };
    p.ping()?;
    c.pause(false);
    c.expect_closed(WAIT)?;
    // the last packet may be cut
    if let Some(m) = c.malformed().filter(|m| !m.contains("ends inside a packet")) {
        return c.bad(format!("after {} with {} packets waiting: {}", what, n, m));
    }
    let got = c.take_msgs();
    for (i, e) in got.iter().enumerate() {
        let m = e.msg();
        if m.payload != format!("{}{}", i, pad).as_bytes() || m.topic != b"w/x" || m.qos != q {
            return c.bad(format!("after {} with {} packets waiting: message {} is {}", what, n, i, m.brief()));
        }
        ctx.eval(Some(hash(format!("end {} {} {} {}", i, n, how, q).as_bytes())));
    }
    let mut left = pings;
    for a in c.take_answers() {
        match a.pkt {
            SPkt::PingResp if left > 0 => left -= 1,
            SPkt::ConnAck { code, .. } if code != 0 && how == 3 => {}
            x => return c.bad(format!("after {} with {} packets waiting: {}", what, n, x.brief())),
        }
    }
    ctx.count("streams_cut_by_the_end", 1);
    ctx.count("packets_read_to_the_end", got.len() as u64);
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one forwarded PUBLISH inside a stream that is strictly decoded to its end. Streams: packets with
         remaining lengths at all boundaries (127/128, 16383/16384, 2097151/2097152) mixed with SUBACKs of 1-3000
         codes and other answers, to clients that read byte by byte, slowly, or not for a while, over small socket
         buffers on both sides and with writes done in part only, often of one byte (counted), and streams with payloads of 17-19 MB to clients
         that do not read for a while. Streams of 300-20000 small packets to a client that
         stops in five ways have to be exact beginnings. Topics, also long and not ASCII ones, are compared. Distinct by (payload length, send buffer,
         answers in between).",
    );
    rounds(ctx, 6, ctx.secs(22, 300), 18, |ctx, w, r, rng| if r % 60 == 1 { huge(ctx, w, rng) } else if r % 6 == 4 { ending(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

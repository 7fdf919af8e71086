//! The same bytes, divided differently over reads.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

struct Script {
    packets: Vec<Vec<u8>>,
    answers: Vec<SPkt>,
    /// to the client itself (QoS 0), to the observer
    own: Vec<(Vec<u8>, Vec<u8>)>,
    seen: Vec<(Vec<u8>, Vec<u8>)>,
    /// after each packet: how many answers, how many observed
    after: Vec<(usize, usize)>,
}

fn script(rng: &mut Rng, tag: &str, len: usize, big: usize) -> Script {
    let mut c = Connect::new(&format!("c{}", tag));
    if rng.pct(30) {
        c.user = Some(b"user".to_vec());
        c.pass = Some(vec![0, 1, 255]);
    }
    if rng.pct(30) {
        c.will = Some((b"will/t".to_vec(), b"w".to_vec(), 1, true));
    }
    let mut s = Script {
        packets: vec![c.build()],
        answers: vec![SPkt::ConnAck { present: false, code: 0 }],
        own: vec![],
        seen: vec![],
        after: vec![(1, 0)],
    };
    let mut subscribed = false;
    let mut id = rng.range(1, 60000) as u16;
    for i in 0..len {
        id += 1;
        match rng.below(9) {
            0 => {
                s.packets.push(subscribe(id, &[(format!("x{}/#", tag), 0), ("bad#".into(), 1), (format!("y{}", tag), 2)]));
                s.answers.push(SPkt::SubAck(id, vec![0, 0x80, 2]));
                subscribed = true;
            }
            1 => {
                s.packets.push(unsubscribe(id, &[format!("x{}/#", tag), "never".into()]));
                s.answers.push(SPkt::UnsubAck(id));
                subscribed = false;
            }
            2 => {
                s.packets.push(pingreq());
                s.answers.push(SPkt::PingResp);
            }
            3 => {
                s.packets.push(pubrel(id));
                s.answers.push(SPkt::PubComp(id));
            }
            4 => {
                s.packets.push(pubrec(id));
                s.answers.push(SPkt::PubRel(id));
            }
            _ => {
                let q = rng.below(3) as u8;
                let n = if big > 0 && rng.pct(60) { rng.range(big / 2, big) } else { rng.below(20) };
                let mut body = format!("{}:", i).into_bytes();
                body.extend(rng.bytes(n));
                let t = format!("x{}/{}", tag, "é".repeat(rng.below(4)) + "z").into_bytes();
                s.packets.push(publish(&t, &body, q, id, false, false));
                match q {
                    1 => s.answers.push(SPkt::PubAck(id)),
                    2 => s.answers.push(SPkt::PubRec(id)),
                    _ => {}
                }
                if subscribed {
                    s.own.push((t.clone(), body.clone()));
                }
                s.seen.push((t, body));
            }
        }
        s.after.push((s.answers.len(), s.seen.len()));
    }
    s.packets.push(pingreq());
    s.answers.push(SPkt::PingResp);
    s.after.push((s.answers.len(), s.seen.len()));
    s
}

/// Wait until the broker has read this many bytes in all (or, if it does not tell, a little while)
fn read_by(b: &Broker, target: u64) -> bool {
    let t0 = Instant::now();
    while b.ctl.recv_bytes.load(SeqCst) < target {
        if t0.elapsed() > Duration::from_millis(40) {
            return false;
        }
        std::thread::yield_now();
    }
    true
}

/// Send the script cut at these offsets; the transcript has to be that of the script.
fn play(ctx: &Ctx, b: &Broker, s: &Script, cuts: &[usize], wait: bool, o: &Client, hold: Option<usize>) -> Res<()> {
    let bytes: Vec<u8> = s.packets.concat();
    let ends: Vec<usize> = s.packets.iter().scan(0, |a, p| {
        *a += p.len();
        Some(*a)
    }).collect();
    let x = Client::open(b.addr, "x", &SockOpts { auto_ack: true, ..Default::default() })?;
    x.set_auto_ack(false);
    let base = b.ctl.recv_bytes.load(SeqCst);
    let mut at = 0;
    let mut held: Vec<Ev> = vec![];
    for c in cuts.iter().cloned().chain([bytes.len()]) {
        if c <= at || c > bytes.len() {
            continue;
        }
        x.send(&bytes[at..c])?;
        at = c;
        if wait && c < bytes.len() {
            let ok = read_by(b, base + c as u64);
            ctx.count(if ok { "segments_read_on_their_own" } else { "segments_not_confirmed" }, 1);
        }
        if hold == Some(c) && c < bytes.len() {
            // Only complete packets may have had an effect, and others are served meanwhile.
            let whole = ends.iter().filter(|e| **e <= c).count();
            let (na, no) = if whole == 0 { (0, 0) } else { s.after[whole - 1] };
            let mut got = vec![];
            for _ in 0..na {
                got.push(x.answer()?);
            }
            for _ in 0..no {
                held.push(o.message().map_err(|f| f.ctx("waiting for what whole packets published"))?);
            }
            o.publish("!end", b"hold", 0)?;
            held.extend(o.messages_until(b"hold")?);
            if held.len() != no {
                return x.bad(format!("with {} of {} bytes sent ({} whole packets), {} messages were forwarded instead of {}", c, bytes.len(), whole, held.len(), no));
            }
            if let Some(e) = x.take_answers().first() {
                return x.bad(format!("with {} of {} bytes sent ({} whole packets), an answer too early: {}", c, bytes.len(), whole, e.pkt.brief()));
            }
            for (i, e) in got.iter().enumerate() {
                if e.pkt != s.answers[i] {
                    return x.bad(format!("answer {}: expected {}, got {}", i, s.answers[i].brief(), e.pkt.brief()));
                }
            }
            ctx.count("held_inside_a_packet", 1);
        }
    }
    let from = match hold {
        Some(c) if c < bytes.len() && cuts.contains(&c) => {
            let whole = ends.iter().filter(|e| **e <= c).count();
            if whole == 0 {
                0
            } else {
                s.after[whole - 1].0
            }
        }
        _ => 0,
    };
    for (i, want) in s.answers.iter().enumerate().skip(from) {
        let a = x.answer().map_err(|f| f.ctx(&format!("answer {} of {}, expected {}; cuts {:?} of {} bytes", i, s.answers.len(), want.brief(), &cuts[..cuts.len().min(20)], bytes.len())))?;
        if a.pkt != *want {
            return x.bad(format!("answer {}: expected {}, got {}; cuts {:?}", i, want.brief(), a.pkt.brief(), &cuts[..cuts.len().min(20)]));
        }
    }
    // own deliveries: behind a sentinel of its own
    let mut seen = held;
    while seen.len() < s.seen.len() {
        seen.push(o.message()?);
    }
    o.publish("!end", b"over", 0)?;
    seen.extend(o.messages_until(b"over")?);
    x.ping()?;
    let mut own = vec![];
    while own.len() < s.own.len() {
        own.push(x.message()?);
    }
    x.ping()?;
    own.extend(x.take_msgs());
    for (what, got, want) in [("the observer", &seen, &s.seen), ("the client itself", &own, &s.own)] {
        let g: Vec<(Vec<u8>, Vec<u8>)> = got.iter().map(|e| (e.msg().topic.clone(), e.msg().payload.clone())).collect();
        if g != *want {
            let i = g.iter().zip(want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            return x.bad(format!(
                "{} received {} messages instead of {}, first difference at {} ({} / {}); cuts {:?}",
                what,
                g.len(),
                want.len(),
                i,
                g.get(i).map(|m| show(&m.1)).unwrap_or_default(),
                want.get(i).map(|m| show(&m.1)).unwrap_or_default(),
                &cuts[..cuts.len().min(20)]
            ));
        }
    }
    if let Some(e) = x.take_answers().first() {
        return x.bad(format!("an answer more than expected: {}", e.pkt.brief()));
    }
    ctx.eval(Some(hash(&bytes) ^ hash(format!("{:?}{:?}", cuts, hold).as_bytes())));
    ctx.max("most_segments", cuts.len() as u64 + 1);
    ctx.count("bytes_sent", bytes.len() as u64);
    ctx.sample(|| format!("{} packets, {} bytes, cut at {:?}, held at {:?}", s.packets.len(), bytes.len(), &cuts[..cuts.len().min(12)], hold));
    x.send(&disconnect())?;
    x.expect_closed(WAIT)?;
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 10 == 9 {
        w.restart();
    }
    w.broker(&Opts::default())?;
    let b = w.broker.as_ref().unwrap();
    let o = Client::simple(b.addr, &format!("o{}", r))?;
    let tag = format!("{}w{}", r, w.index);
    o.sub(&[("!end", 0)])?;
    let watch = format!("x{}", tag);
    let mut n = 0;
    let mut go = |s: &Script, cuts: &[usize], wait: bool, hold: Option<usize>| -> Res<()> {
        n += 1;
        play(ctx, b, s, cuts, wait, &o, hold)
    };
    o.sub(&[(format!("{}/#", watch), 0)])?;
    match r % 5 {
        0 => {
            // a short script, cut in two at every offset
            let len = rng.range(3, 8);
            let s = script(rng, &tag, len, 0);
            let total: usize = s.packets.iter().map(|p| p.len()).sum();
            for c in 0..total {
                go(&s, &[c], true, rng.pct(40).then_some(c))?;
                if ctx.stopped() {
                    break;
                }
            }
        }
        1 => {
            // byte by byte, read on its own each
            let len = rng.range(3, 20);
            let s = script(rng, &tag, len, 0);
            let total: usize = s.packets.iter().map(|p| p.len()).sum();
            let all: Vec<usize> = (1..total).collect();
            go(&s, &all, true, None)?;
            go(&s, &all, false, None)?;
            go(&s, &all, true, Some(rng.range(1, total - 1)))?;
        }
        2 => {
            // random cuts, and everything at once
            for _ in 0..12 {
                let len = rng.range(3, 60);
                let s = script(rng, &tag, len, 0);
                let total: usize = s.packets.iter().map(|p| p.len()).sum();
                go(&s, &[], false, None)?;
                let mut cuts: Vec<usize> = (0..rng.range(1, 20)).map(|_| rng.range(1, total - 1)).collect();
                cuts.sort();
                cuts.dedup();
                let h = *rng.pick(&cuts);
                go(&s, &cuts, true, rng.pct(60).then_some(h))?;
            }
        }
        3 => {
            // packets around and beyond the sizes of buffers
            for big in [4096usize, 8192, 9000, 16384, 20000, 70000] {
                let len = rng.range(3, 10);
                let s = script(rng, &tag, len, big);
                let total: usize = s.packets.iter().map(|p| p.len()).sum();
                go(&s, &[], false, None)?;
                let near: Vec<usize> = [4096usize, 8192, 16384, 65536].iter().flat_map(|x| [x - 1, *x, x + 1]).filter(|x| *x < total).collect();
                go(&s, &near, true, None)?;
                let step = rng.range(500, 9000);
                let cuts: Vec<usize> = (1..total / step + 1).map(|i| i * step).collect();
                go(&s, &cuts, true, None)?;
                // cut in the fixed header of each packet
                let mut at = 0;
                let mut cuts = vec![];
                for p in &s.packets {
                    cuts.extend([at + 1, at + 2, at + 3]);
                    at += p.len();
                }
                cuts.dedup();
                let h = *rng.pick(&cuts);
                go(&s, &cuts, true, Some(h))?;
            }
        }
        _ => {
            // megabytes
            let len = rng.range(2, 5);
            let big = if r % 60 == 4 { 40 << 20 } else { rng.range(500_000, 4_000_000) };
            let mut s = script(rng, &tag, if big > 10 << 20 { 1 } else { len }, big);
            while big > 10 << 20 && s.packets[1].len() < 20 << 20 {
                s = script(rng, &tag, 1, big);
            }
            let total: usize = s.packets.iter().map(|p| p.len()).sum();
            ctx.max("largest_packet", s.packets.iter().map(|p| p.len()).max().unwrap() as u64);
            go(&s, &[], false, None)?;
            // inside the fixed headers, up to five bytes long
            let mut at = 0;
            let mut cuts = vec![];
            for p in &s.packets {
                cuts.extend((1..6).map(|k| at + k));
                at += p.len();
            }
            cuts.sort();
            cuts.dedup();
            cuts.retain(|c| *c < total);
            let h = *rng.pick(&cuts);
            go(&s, &cuts, true, Some(h))?;
            let mut cuts: Vec<usize> = (0..30).map(|_| rng.range(1, total - 1)).collect();
            cuts.sort();
            cuts.dedup();
            let h = *rng.pick(&cuts);
            go(&s, &cuts, true, Some(h))?;
        }
    }
    Ok(())
}

/// Many packets in one segment: more than one read's worth, and connections that wait half-way
fn crowd(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.broker(&Opts::default())?;
    let b = w.broker.as_ref().unwrap();
    let o = Client::simple(b.addr, &format!("oc{}", r))?;
    let tag = format!("{}q{}", r, w.index);
    o.sub(&[("!end", 0)])?;
    o.sub(&[(format!("x{}/#", tag), 0)])?;
    // half-finished packets of all kinds
    let mut stuck = vec![];
    for i in 0..30 {
        let s = script(rng, &format!("{}-{}", tag, i), 6, 0);
        let bytes = s.packets.concat();
        let c = Client::open(b.addr, "stuck", &SockOpts::default())?;
        c.send(&bytes[..rng.range(1, bytes.len() - 3)])?;
        stuck.push(c);
    }
    let s = script(rng, &tag, 3000, 0);
    let total: usize = s.packets.iter().map(|p| p.len()).sum();
    play(ctx, b, &s, &[], false, &o, None)?;
    play(ctx, b, &s, &[total - 1], false, &o, None)?;
    for c in &stuck {
        if c.is_closed() {
            return c.bad("closed while half-way through a packet".into());
        }
    }
    Ok(())
}

/// A packet arrives in pieces while others keep the same connection busy with deliveries
fn noisy(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let tag = format!("{}n{}", r, w.index);
    let o = Client::simple(addr, &format!("o{}", tag))?;
    o.sub(&[(format!("x{}/#", tag), 0)])?;
    let x = Client::connect(addr, &Connect::new(&format!("x{}", tag)), &SockOpts { auto_ack: true, auto_pub: true, ..Default::default() })?;
    // at QoS 0: an acknowledgement must not get into the middle of a packet sent in pieces
    x.sub(&[(format!("n{}/#", tag), 0)])?;
    let noise = Client::connect(addr, &Connect::new(&format!("n{}", tag)), &SockOpts { auto_pub: true, ..Default::default() })?;
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut sent: Vec<(usize, u64)> = vec![];
    let mut seed = Rng::new(rng.next(), 1);
    let (total, res) = std::thread::scope(|s| {
        let (noise, stop, tag) = (&noise, &stop, &tag);
        let h = s.spawn(move || -> Res<u64> {
            let mut n = 0u64;
            while !stop.load(SeqCst) && n < 60_000 {
                let k = if seed.pct(10) { 30 } else { 1 };
                let mut bytes = vec![];
                for _ in 0..k {
                    let q = seed.below(2) as u8;
                    let pid = if q > 0 { noise.pid() } else { 0 };
                    if q > 0 {
                        noise.sh.m.lock().unwrap().pending.insert(pid, q);
                    }
                    let t = format!("n{}/{}", tag, n % 7);
                    bytes.extend(publish(t.as_bytes(), n.to_string().as_bytes(), q, pid, false, false));
                    n += 1;
                }
                noise.send(&bytes)?;
                noise.settle(20)?;
                std::thread::sleep(Duration::from_micros(seed.below(400) as u64));
            }
            noise.settle(0)?;
            noise.publish(format!("n{}/end", tag), b"quiet", 0)?;
            Ok(n)
        });
        let mut go = || -> Res<()> {
            for i in 0..6 {
                let n = *rng.pick(&[10usize, 200, 5000, 9000, 70_000, 300_000, 2_000_000, 5_000_000]);
                let mut body = format!("{}:", i).into_bytes();
                body.extend(rng.bytes(n));
                let mut bytes = vec![];
                for _ in 0..rng.below(3) {
                    bytes.extend(pingreq());
                }
                let pings = bytes.len() / 2;
                let q = rng.below(2) as u8;
                let pid = x.pid();
                if q > 0 {
                    x.sh.m.lock().unwrap().pending.insert(pid, q);
                }
                bytes.extend(publish(format!("x{}/t", tag).as_bytes(), &body, q, pid, false, false));
                bytes.extend(pingreq());
                sent.push((body.len(), hash(&body)));
                let pieces = rng.range(2, 40);
                let mut cuts: Vec<usize> = (0..pieces).map(|_| rng.range(1, bytes.len() - 1)).chain([bytes.len()]).collect();
                cuts.sort();
                cuts.dedup();
                let mut at = 0;
                for c in cuts {
                    x.send(&bytes[at..c])?;
                    at = c;
                    std::thread::sleep(Duration::from_micros(rng.below(2500) as u64));
                }
                for _ in 0..pings + 1 {
                    match x.answer()?.pkt {
                        SPkt::PingResp => {}
                        p => return x.bad(format!("expected PINGRESP, got {}", p.brief())),
                    }
                }
                x.settle(0)?;
                let e = o.message().map_err(|f| f.ctx(&format!("message {} of {} bytes, sent in {} pieces", i, body.len(), pieces)))?;
                let m = e.msg();
                if m.payload != body {
                    return o.bad(format!("a payload of {} bytes sent in {} pieces came as {}", body.len(), pieces, m.brief()));
                }
                ctx.eval(Some(hash(&body)));
                ctx.count("packets_among_deliveries", 1);
            }
            Ok(())
        };
        let res = go();
        stop.store(true, SeqCst);
        (h.join().unwrap(), res)
    });
    res?;
    let total = total?;
    let got = x.messages_until(b"quiet")?;
    if got.len() as u64 != total {
        return x.bad(format!("{} of {} deliveries while sending in pieces", got.len(), total));
    }
    for (i, e) in got.iter().enumerate() {
        if e.msg().payload != i.to_string().as_bytes() {
            return x.bad(format!("delivery {} while sending in pieces is {}", i, e.msg().brief()));
        }
    }
    ctx.count("deliveries_while_sending_in_pieces", total);
    Ok(())
}

/// Packets of a given total length, of which nothing follows until they have been answered
fn lengths(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::simple(addr, &format!("len{}w{}", r, w.index))?;
    let mut sizes: Vec<usize> = vec![];
    let from = rng.range(5, 2500);
    sizes.extend(from..from + 300);
    for i in 1..65 {
        let k = i * 1024;
        sizes.extend([k - rng.range(1, 6), k - 1, k, k + 1, k + rng.range(1, 6)]);
    }
    for i in 0..12 {
        let k = 256usize << i;
        sizes.extend(k - 5..k + 6);
    }
    for _ in 0..30 {
        sizes.extend([rng.range(1, 300) * 1000, rng.range(1, 200) * 1460, rng.range(1, 100) * 4096, rng.range(1, 40) * 32768]);
    }
    rng.shuffle(&mut sizes);
    sizes.truncate(500);
    for n in sizes {
        let pid = c.pid();
        // topic, filter and payload make up for the length
        let head = |rl: usize| if rl < 128 { 2 } else if rl < 16384 { 3 } else if rl < 2097152 { 4 } else { 5 };
        let rl = match (2..6).find(|h| n > *h && head(n - h) == *h) {
            Some(h) => n - h,
            None => continue,
        };
        let kind = rng.below(4);
        let (b, want) = match kind {
            0 if rl > 5 && rl < 65000 => (subscribe(pid, &[("f".repeat(rl - 5), 1)]), SPkt::SubAck(pid, vec![1])),
            1 if rl > 4 && rl < 65000 => (unsubscribe(pid, &["f".repeat(rl - 4)]), SPkt::UnsubAck(pid)),
            2 if rl > 4 && rl < 60000 => (publish("l".repeat(rl - 4).as_bytes(), b"", 2, pid, false, false), SPkt::PubRec(pid)),
            _ if rl > 4 => (publish(b"l", &vec![b'p'; rl - 5], 1, pid, false, false), SPkt::PubAck(pid)),
            _ => continue,
        };
        if b.len() != n {
            return Err(Fail::Inc(format!("a packet of {} bytes is {} long", n, b.len())));
        }
        let told = |f: Fail| f.ctx(&format!("a packet of {} bytes (type {}) with nothing behind it", n, b[0] >> 4));
        match rng.below(3) {
            0 => c.send(&b)?,
            1 => {
                let k = rng.range(1, n - 1);
                c.send(&b[..k])?;
                c.send(&b[k..])?;
            }
            _ => {
                // the length of two together
                let k = rng.range(1, n - 1);
                let mut two = pingreq();
                two.extend(&b[..k]);
                c.send(&two)?;
                c.send(&b[k..])?;
                match c.answer().map_err(told)?.pkt {
                    SPkt::PingResp => {}
                    p => return c.bad(format!("expected PINGRESP, got {}", p.brief())).map_err(told),
                }
            }
        }
        match c.answer().map_err(told)?.pkt {
            p if p == want => {}
            p => return c.bad(format!("expected {}, got {}", want.brief(), p.brief())).map_err(told),
        }
        if kind == 2 && b[0] >> 4 == 3 && want == SPkt::PubRec(pid) {
            c.send(&pubrel(pid))?;
            c.answer()?;
        }
        ctx.count("packets_with_nothing_behind", 1);
        ctx.eval(Some(hash(&b)));
        if ctx.stopped() {
            break;
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one script (CONNECT, SUBSCRIBE, UNSUBSCRIBE, PUBLISH, PUBREL, PUBREC, PINGREQ) sent with one
         division into segments; answers, own deliveries and an observer's deliveries have to equal the script's. The
         broker's reads are counted, so that a segment is sent when the one before has been read. Divisions: in two at
         every offset of a script, byte by byte, random, around buffer sizes, inside fixed headers, everything at once
         (to 3000 packets), packets of megabytes (20-40 MB now and then); with pauses inside a packet during which only whole packets may show
         effects and others are served; packets up to 5 MB in pieces on a connection to which others publish all the
         time; packets of each type and exact length, of which nothing follows before the answer. Distinct by (bytes, cuts, pause).",
    );
    rounds(ctx, 6, ctx.secs(22, 300), 20, |ctx, w, r, rng| if r % 11 == 10 { crowd(ctx, w, r, rng) } else if r % 11 == 7 { noisy(ctx, w, r, rng) } else if r % 11 == 2 || r % 11 == 5 { lengths(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

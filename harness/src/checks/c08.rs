//! QoS 2 towards the broker: exactly once.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::HashMap;

struct P {
    c: Client,
    tag: String,
    /// in the handshake: identifier -> its PUBLISH
    open: HashMap<u16, (Vec<u8>, Vec<u8>)>,
    /// payloads the subscribers have to see, in order
    sent: Vec<Vec<u8>>,
    n: u64,
    /// subscribed to messages of its own
    own: bool,
    /// deliveries to it that it has not acknowledged yet
    held: Vec<(u16, u8)>,
}

fn expect(c: &Client, want: SPkt, hist: &[String]) -> Res<()> {
    let a = c.answer().map_err(|f| f.ctx(&format!("expected {} after {}", want.brief(), hist.join("; "))))?.pkt;
    if a != want {
        return c.bad(format!("expected {}, got {} after {}", want.brief(), a.brief(), hist.join("; ")));
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 12 == 11 {
        w.restart();
    }
    let addr = w.broker(&Opts { preempt: (r % 3 == 2 && w.broker.is_none()).then_some((500, 300)), ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, ..Default::default() };
    let mut subs = vec![];
    for i in 0..rng.range(1, 2) {
        let c = Client::connect(addr, &Connect::new(&format!("s{}-{}", r, i)), &so)?;
        c.sub(&[("e/#", rng.below(3) as u8)])?;
        if rng.pct(40) {
            c.sub(&[("e/+", rng.below(3) as u8), ("#", rng.below(3) as u8)])?;
        }
        subs.push(c);
    }
    let other = Client::connect(addr, &Connect::new(&format!("o{}", r)), &SockOpts { auto_pub: true, ..so.clone() })?;
    let np = rng.range(1, 3);
    let mut ps: Vec<P> = vec![];
    for i in 0..np {
        let c = Client::connect(addr, &Connect::new(&format!("p{}-{}", r, i)), &SockOpts::default())?;
        ps.push(P { c, tag: format!("{}", i), open: HashMap::new(), sent: vec![], n: 0, own: false, held: vec![] });
    }
    // few identifiers: the publishers share them
    let ids: Vec<u16> = match rng.below(3) {
        0 => vec![1, 2, 3],
        1 => vec![1, 255, 256, 257, 32768, 65535],
        _ => (1..400).collect(),
    };
    let mut hist: Vec<String> = vec![];
    let steps = rng.range(20, 300);
    for _ in 0..steps {
        let pi = rng.below(np);
        let p = &mut ps[pi];
        let mut id = *rng.pick(&ids);
        if !p.held.is_empty() && rng.pct(50) {
            id = rng.pick(&p.held).0;
        }
        match rng.below(20) {
            0..=8 => {
                // new, or again
                let again = p.open.contains_key(&id);
                if !again {
                    p.n += 1;
                    let body = format!("{}:{}:{}", p.tag, p.n, id).into_bytes();
                    let t = format!("e/{}", rng.below(4)).into_bytes();
                    p.sent.push(body.clone());
                    p.open.insert(id, (t, body));
                }
                let (t, body) = p.open[&id].clone();
                let times = if rng.pct(25) { rng.range(2, 5) } else { 1 };
                let mut bytes = vec![];
                for k in 0..times {
                    bytes.extend(publish(&t, &body, 2, id, if again || k > 0 { rng.pct(70) } else { rng.pct(20) }, false));
                }
                hist.push(format!("{}: {}PUBLISH id {} x{}", p.tag, if again { "again " } else { "" }, id, times));
                p.c.send(&bytes)?;
                for _ in 0..times {
                    expect(&p.c, SPkt::PubRec(id), &hist)?;
                }
                ctx.count(if again || times > 1 { "retransmissions" } else { "first_transmissions" }, 1);
                ctx.eval(Some(hash(format!("pub {} {} {} {}", again, times, id, p.open.len()).as_bytes())));
            }
            9..=13 => {
                let times = if rng.pct(25) { rng.range(2, 4) } else { 1 };
                let mut known: Vec<u16> = p.open.keys().cloned().collect();
                known.sort();
                if rng.pct(40) && known.iter().any(|i| p.held.iter().any(|h| h.0 == *i)) {
                    known.retain(|i| p.held.iter().any(|h| h.0 == *i));
                }
                let id = if rng.pct(80) && !known.is_empty() { *rng.pick(&known) } else { id };
                let was = p.open.remove(&id).is_some();
                hist.push(format!("{}: PUBREL id {} x{}{}", p.tag, id, times, if was { "" } else { " (not open)" }));
                let mut bytes = vec![];
                for _ in 0..times {
                    bytes.extend(pubrel(id));
                }
                p.c.send(&bytes)?;
                for _ in 0..times {
                    expect(&p.c, SPkt::PubComp(id), &hist)?;
                }
                ctx.count("releases", 1);
                ctx.eval(Some(hash(format!("rel {} {} {}", was, times, id).as_bytes())));
            }
            14 | 15 => {
                // other traffic on free identifiers
                if !p.open.contains_key(&id) {
                    p.n += 1;
                    let body = format!("{}:{}:{}", p.tag, p.n, id).into_bytes();
                    p.sent.push(body.clone());
                    let q = rng.below(2) as u8;
                    hist.push(format!("{}: PUBLISH QoS {} id {}", p.tag, q, id));
                    // DUP says nothing at QoS 1: it is a message like any other
                    p.c.send(&publish(b"e/1", &body, q, id, q == 1 && rng.pct(40), false))?;
                    if q == 1 {
                        expect(&p.c, SPkt::PubAck(id), &hist)?;
                    }
                }
            }
            16 => {
                // the whole handshake in one segment, with a retransmission inside
                if !p.open.contains_key(&id) {
                    p.n += 1;
                    let body = format!("{}:{}:{}", p.tag, p.n, id).into_bytes();
                    p.sent.push(body.clone());
                    let mut bytes = publish(b"e/2", &body, 2, id, false, false);
                    bytes.extend(publish(b"e/2", &body, 2, id, true, false));
                    bytes.extend(pubrel(id));
                    bytes.extend(pubrel(id));
                    hist.push(format!("{}: PUBLISH, again, PUBREL, again in one segment, id {}", p.tag, id));
                    p.c.send(&bytes)?;
                    for e in [SPkt::PubRec(id), SPkt::PubRec(id), SPkt::PubComp(id), SPkt::PubComp(id)] {
                        expect(&p.c, e, &hist)?;
                    }
                    ctx.eval(Some(hash(format!("all {}", id).as_bytes())));
                }
            }
            17 => {
                // unrelated acknowledgements with the same numbers
                p.held.retain(|h| h.0 != id);
                p.c.send(&[puback(id), pubcomp(id)].concat())?;
                hist.push(format!("{}: stray PUBACK, PUBCOMP id {}", p.tag, id));
                if rng.pct(50) {
                    p.c.send(&pubrec(id))?;
                    hist.push(format!("{}: stray PUBREC id {}", p.tag, id));
                    expect(&p.c, SPkt::PubRel(id), &hist)?;
                }
            }
            18 if rng.pct(60) => {
                // deliveries to the publisher itself: the broker counts their identifiers from 1 on,
                // so they are equal to identifiers of its own handshakes
                if !p.own {
                    let own = format!("$own/{}", p.tag);
                    p.c.send(&subscribe(60000, &[(own, 2)]))?;
                    expect(&p.c, SPkt::SubAck(60000, vec![2]), &hist)?;
                    p.own = true;
                }
                let k = rng.range(1, 6);
                for j in 0..k {
                    let q = if rng.pct(80) { 2 } else { 1 };
                    other.publish(format!("$own/{}", p.tag), format!("{}", j).as_bytes(), q)?;
                }
                other.settle(0)?;
                let mut got = vec![];
                for _ in 0..k {
                    let e = p.c.message()?;
                    got.push((e.msg().pid, e.msg().qos));
                }
                let kept = if rng.pct(50) { rng.below(got.len() + 1) } else { 0 };
                hist.push(format!("{}: receives {:?}, does not acknowledge the last {}", p.tag, got, kept));
                p.held.extend(got.split_off(got.len() - kept));
                ctx.count("deliveries_to_publishers_withheld", kept as u64);
                for (id, q) in got {
                    if q == 1 {
                        p.c.send(&puback(id))?;
                    } else {
                        p.c.send(&pubrec(id))?;
                        expect(&p.c, SPkt::PubRel(id), &hist)?;
                        if rng.pct(20) {
                            p.c.send(&pubrec(id))?;
                            expect(&p.c, SPkt::PubRel(id), &hist)?;
                        }
                        p.c.send(&pubcomp(id))?;
                    }
                }
                ctx.count("deliveries_to_publishers", k as u64);
            }
            18 => {
                p.c.send(&subscribe(p.c.pid().max(60000), &[("unrelated/x", 2)]))?;
                let _ = p.c.answer()?;
                p.c.ping()?;
            }
            _ => {
                if rng.pct(30) {
                    // a new connection (clean): identifiers start anew
                    hist.push(format!("{}: reconnects", p.tag));
                    // what went before at QoS 0 has no answer; a takeover may overtake it
                    p.c.ping()?;
                    p.c.close();
                    p.c = Client::connect(addr, &Connect::new(&format!("p{}-{}", r, pi)), &SockOpts::default())?;
                    p.open.clear();
                    p.held.clear();
                    p.own = false;
                }
            }
        }
    }
    for p in &ps {
        p.c.send(&publish(b"e/end", format!("{}:end", p.tag).as_bytes(), 0, 0, false, false))?;
        p.c.ping()?;
    }
    for s in &subs {
        let mut seen: HashMap<String, Vec<Vec<u8>>> = HashMap::new();
        let mut done = 0;
        while done < np {
            let e = s.message()?;
            let m = e.msg();
            let tag = String::from_utf8_lossy(&m.payload).split(':').next().unwrap_or("").to_string();
            if m.payload.ends_with(b":end") {
                done += 1;
            } else {
                seen.entry(tag).or_default().push(m.payload.clone());
            }
        }
        for p in &ps {
            let got = seen.remove(&p.tag).unwrap_or_default();
            if got != p.sent {
                let mut count: HashMap<&Vec<u8>, i32> = HashMap::new();
                for x in &got {
                    *count.entry(x).or_insert(0) += 1;
                }
                for x in &p.sent {
                    *count.entry(x).or_insert(0) -= 1;
                }
                let mut odd: Vec<String> = count.iter().filter(|c| *c.1 != 0).map(|c| format!("{} {:+}", show(c.0), c.1)).collect();
                odd.sort();
                return s.bad(format!("publisher {}: {} distinct messages, {} delivered; surplus/missing: {:?}\n    history: {}", p.tag, p.sent.len(), got.len(), odd, hist.join("; ")));
            }
            ctx.count("messages_delivered_once", got.len() as u64);
        }
    }
    ctx.sample(|| hist.join("; "));
    Ok(())
}

/// Very many open handshakes at once, all retransmitted, then released and reused
fn many(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let s = Client::connect(addr, &Connect::new(&format!("ms{}", r)), &SockOpts { auto_ack: true, ..Default::default() })?;
    s.sub(&[("m", 2)])?;
    let p = Client::connect(addr, &Connect::new(&format!("mp{}", r)), &SockOpts::default())?;
    let n = ctx.n(*rng.pick(&[40_000, 60_000, 65_535]), 65_535);
    let mut ids: Vec<u16> = (1..=65535).collect();
    rng.shuffle(&mut ids);
    ids.truncate(n);
    // and deliveries to the publisher itself, which have nothing to do with them
    let own = Client::connect(addr, &Connect::new(&format!("mo{}", r)), &SockOpts { auto_ack: true, auto_pub: true, ..Default::default() })?;
    p.send(&subscribe(7, &[("own/m", 2)]))?;
    expect(&p, SPkt::SubAck(7, vec![2]), &["subscribe".to_string()])?;
    for pass in 0..2 {
        for (what, first) in [("new", true), ("again", false)] {
            for part in ids.chunks(400) {
                let mut bytes = vec![];
                for id in part {
                    bytes.extend(publish(b"m", format!("{}.{}", pass, id).as_bytes(), 2, *id, !first, false));
                }
                p.send(&bytes)?;
                for id in part {
                    expect(&p, SPkt::PubRec(*id), &[what.to_string()])?;
                    ctx.eval(Some((pass as u64) << 40 | (first as u64) << 32 | *id as u64));
                }
                if first {
                    for id in part {
                        let e = s.message()?;
                        if e.msg().payload != format!("{}.{}", pass, id).as_bytes() {
                            return s.bad(format!("expected {}.{}, got {}", pass, id, e.msg().brief()));
                        }
                    }
                }
            }
        }
        for q in 0..3 {
            own.publish("own/m", format!("own{}", q).as_bytes(), q)?;
            let e = p.message().map_err(|f| f.ctx(&format!("with {} handshakes of its own open", n)))?;
            if e.msg().payload != format!("own{}", q).as_bytes() || e.msg().qos != q {
                return p.bad(format!("expected own{} at QoS {}, got {}", q, q, e.msg().brief()));
            }
        }
        p.publish("m", b"end", 0)?;
        if let Some(e) = s.messages_until(b"end")?.first() {
            return s.bad(format!("a retransmission was delivered: {}", e.msg().brief()));
        }
        for part in ids.chunks(1000) {
            p.send(&part.iter().flat_map(|i| pubrel(*i)).collect::<Vec<_>>())?;
            for id in part {
                expect(&p, SPkt::PubComp(*id), &["release".into()])?;
            }
        }
    }
    ctx.max("most_open_handshakes", n as u64);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one PUBLISH or PUBREL with its answers; at the end of a history each subscriber's deliveries are
         compared with the model (one per handshake). Histories: 1-3 publishers sharing identifiers, PUBLISH repeated
         with and without DUP, PUBREL repeated or without PUBLISH, identifiers reused after PUBCOMP, whole handshakes
         in one segment, other traffic between, deliveries to the publisher whose identifiers are those of its own
         handshakes, acknowledged at once or not at all, stray acknowledgements, reconnects; and up to 65535 handshakes open at once. Distinct by
         (operation, repeated, times, identifier, open handshakes).",
    );
    rounds(ctx, 8, ctx.secs(20, 300), 24, |ctx, w, r, rng| if r == 0 { many(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

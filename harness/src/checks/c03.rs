//! Delivery QoS and packet identifiers.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::HashMap;

/// Watches the identifiers of one connection, and acknowledges messages as told.
struct Ids {
    in_flight: HashMap<u16, u8>,
    /// when an identifier was given back
    released: HashMap<u16, u64>,
    held: Vec<(u16, u8)>,
}

impl Ids {
    fn new() -> Self {
        Ids { in_flight: HashMap::new(), released: HashMap::new(), held: vec![] }
    }
    fn delivered(&mut self, c: &Client, e: &Ev) -> Res<()> {
        let m = e.msg();
        if m.qos == 0 {
            return Ok(());
        }
        if self.in_flight.contains_key(&m.pid) {
            return c.bad(format!("identifier {} is in flight already: {}", m.pid, m.brief()));
        }
        if self.released.get(&m.pid).is_some_and(|t| e.t < *t) {
            return c.bad(format!("identifier {} was reused before it was acknowledged: {}", m.pid, m.brief()));
        }
        self.in_flight.insert(m.pid, m.qos);
        self.held.push((m.pid, m.qos));
        Ok(())
    }
    /// Complete the i-th held message
    fn ack(&mut self, c: &Client, i: usize) -> Res<()> {
        let (id, q) = self.held.swap_remove(i);
        if q == 1 {
            self.released.insert(id, now());
            self.in_flight.remove(&id);
            return c.send(&puback(id));
        }
        c.send(&pubrec(id))?;
        match c.answer()?.pkt {
            SPkt::PubRel(x) if x == id => {}
            p => return c.bad(format!("expected PUBREL({}), got {}", id, p.brief())),
        }
        self.released.insert(id, now());
        self.in_flight.remove(&id);
        c.send(&pubcomp(id))
    }
}

/// Requests of the client itself that carry the identifier of a delivery: a name space of their own
fn own(ctx: &Ctx, c: &Client, id: u16, rng: &mut Rng) -> Res<()> {
    let kind = rng.below(4);
    ctx.count("own_requests_with_an_identifier_in_flight", 1);
    let (bytes, want) = match kind {
        0 => (publish(b"!own", b"own", 1, id, false, false), SPkt::PubAck(id)),
        1 => (subscribe(id, &[("!own/s", 1)]), SPkt::SubAck(id, vec![1])),
        2 => (unsubscribe(id, &["!own/s"]), SPkt::UnsubAck(id)),
        _ => (publish(b"!own", b"own", 2, id, false, false), SPkt::PubRec(id)),
    };
    c.send(&bytes)?;
    let a = c.answer()?.pkt;
    if a != want {
        return c.bad(format!("expected {}, got {}", want.brief(), a.brief()));
    }
    if kind == 3 {
        c.send(&pubrel(id))?;
        match c.answer()?.pkt {
            SPkt::PubComp(x) if x == id => {}
            p => return c.bad(format!("expected PUBCOMP({}), got {}", id, p.brief())),
        }
    }
    Ok(())
}

fn grid(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 10 == 9 {
        w.restart();
    }
    let addr = w.broker(&Opts::default())?.addr;
    let pool = ["q/a", "q/+", "q/#", "#", "+/a", "+/+", "q/b", "z", "+"];
    let mut subs: Vec<(Client, HashMap<&str, u8>, Ids, usize)> = vec![];
    for i in 0..rng.range(1, 4) {
        let c = Client::connect(addr, &Connect::new(&format!("s{}-{}", r, i)), &SockOpts::default())?;
        let mut f = HashMap::new();
        for _ in 0..rng.range(1, 7) {
            let x = *rng.pick(&pool);
            let q = rng.below(3) as u8;
            c.sub(&[(x, q)])?;
            f.insert(x, q);
        }
        c.sub(&[("!end", 0)])?;
        // how eagerly it acknowledges
        let eager = *rng.pick(&[0, 10, 50, 90, 100]);
        subs.push((c, f, Ids::new(), eager));
    }
    let p = Client::connect(addr, &Connect::new(&format!("p{}", r)), &SockOpts { auto_pub: true, ..Default::default() })?;
    for batch in 0..rng.range(1, 4) {
        let mut sent = vec![];
        for i in 0..rng.range(10, 120) {
            let t = *rng.pick(&["q/a", "q/b", "z", "q", "x/a"]);
            let q = rng.below(3) as u8;
            let body = format!("{}.{}", batch, i);
            p.publish(t, body.as_bytes(), q)?;
            sent.push((t, q, body));
        }
        let end = format!("end{}", batch);
        p.publish("!end", end.as_bytes(), 0)?;
        p.settle(0)?;
        for (c, f, ids, eager) in &mut subs {
            let mut expect: HashMap<&str, (u8, &str, u8)> = HashMap::new();
            for (t, q, body) in &sent {
                if let Some(g) = f.iter().filter(|x| matches(x.0.as_bytes(), t.as_bytes())).map(|x| *x.1).max() {
                    expect.insert(body, (g.min(*q), t, *q));
                }
            }
            let mut first_bad = None;
            loop {
                let e = c.message().map_err(|x| x.ctx("waiting for deliveries"))?;
                let m = e.msg();
                if m.payload == end.as_bytes() {
                    break;
                }
                let body = String::from_utf8_lossy(&m.payload).to_string();
                if let Some((q, t, pq)) = expect.remove(&body[..]) {
                    if q != m.qos {
                        first_bad.get_or_insert(format!("topic {} published at QoS {}, subscribed {:?}: delivered at QoS {}, not {}", t, pq, f, m.qos, q));
                    }
                    ctx.eval(Some(hash(format!("{:?}{}{}{}", f.len(), t, pq, m.qos).as_bytes()) ^ m.pid as u64));
                }
                ids.delivered(c, &e)?;
                if rng.pct(*eager) && !ids.held.is_empty() {
                    let i = rng.below(ids.held.len());
                    ids.ack(c, i)?;
                }
                if rng.pct(5) && !ids.held.is_empty() {
                    let id = rng.pick(&ids.held).0;
                    own(ctx, c, id, rng)?;
                }
            }
            if let Some(b) = first_bad {
                return c.bad(b);
            }
            ctx.max("most_identifiers_in_flight", ids.in_flight.len() as u64);
        }
    }
    for (c, f, ids, eager) in &mut subs {
        while !ids.held.is_empty() && rng.pct(97) {
            let i = rng.below(ids.held.len());
            ids.ack(c, i)?;
        }
        c.ping()?;
        ctx.sample(|| format!("subscriptions {:?}, acknowledging {}% of the time", f, eager));
    }
    Ok(())
}

/// More deliveries than there are identifiers, some of them never acknowledged
fn wrap(ctx: &Ctx, w: &mut Worker, _r: u64, rng: &mut Rng, granted: u8, total: usize) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::connect(addr, &Connect::new("wrap"), &SockOpts::default())?;
    c.sub(&[("w", granted)])?;
    let p = Client::connect(addr, &Connect::new("wrapper"), &SockOpts { auto_pub: true, ..Default::default() })?;
    let mut ids = Ids::new();
    let mut n = 0;
    let (mut held, mut strays) = (0, 0);
    // identifiers that stay in flight all along: the first ones, the last ones, some between
    let keep: Vec<u16> = vec![1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535, rng.range(4, 65000) as u16, rng.range(4, 65000) as u16];
    let mut since: Vec<(u16, u8)> = vec![];
    let mut busy: Vec<u16> = vec![];
    while n < total {
        let k = 400.min(total - n);
        let mut bytes = vec![];
        for i in 0..k {
            let q = if granted == 1 { 1 + (i % 2) as u8 } else { 2 };
            let pid = p.pid();
            p.sh.m.lock().unwrap().pending.insert(pid, q);
            bytes.extend(publish(b"w", format!("{}", n + i).as_bytes(), q, pid, false, false));
        }
        p.send(&bytes)?;
        let mut out = vec![];
        let mut rels = vec![];
        for i in 0..k {
            let e = c.message()?;
            let m = e.msg();
            if m.payload != format!("{}", n + i).as_bytes() || m.qos != granted {
                return c.bad(format!("expected message {} at QoS {}, got {}", n + i, granted, m.brief()));
            }
            ids.delivered(&c, &e)?;
            ctx.eval(Some((granted as u64) << 40 | (n + i) as u64));
            let (id, q) = ids.held.pop().unwrap();
            // now and then also the last one given out
            let last = i + 1 == k && held < 60 && rng.pct(25);
            if keep.contains(&id) || last {
                held += 1;
                busy.push(id);
                if q == 2 && rng.pct(50) {
                    // half-way through: PUBREC does not give the identifier back
                    out.extend(pubrec(id));
                    since.push((id, q));
                }
                continue;
            }
            if q == 1 {
                ids.released.insert(id, now());
                ids.in_flight.remove(&id);
                out.extend(puback(id));
            } else {
                out.extend(pubrec(id));
                rels.push(id);
            }
        }
        c.send(&out)?;
        let mut out = vec![];
        for _ in 0..rels.len() + since.len() {
            match c.answer()?.pkt {
                SPkt::PubRel(id) => {
                    if rels.contains(&id) {
                        ids.released.insert(id, now());
                        ids.in_flight.remove(&id);
                        out.extend(pubcomp(id));
                    }
                }
                p => return c.bad(format!("expected PUBREL, got {}", p.brief())),
            }
        }
        since.clear();
        if !out.is_empty() {
            c.send(&out)?;
        }
        for id in busy.drain(..) {
            for _ in 0..rng.below(4) {
                own(ctx, &c, id, rng)?;
            }
        }
        if rng.pct(30) {
            // acknowledgements of what was never delivered, or long ago
            let mut x = vec![];
            for _ in 0..rng.range(1, 4) {
                let id = rng.range(1, 65535) as u16;
                if !ids.in_flight.contains_key(&id) {
                    x.extend(if rng.pct(50) { puback(id) } else { pubcomp(id) });
                    strays += 1;
                }
            }
            c.send(&x)?;
            c.ping()?;
        }
        p.settle(0)?;
        n += k;
    }
    ctx.count("acknowledgements_of_nothing", strays);
    ctx.count("deliveries_past_65535", (n - 65535) as u64);
    ctx.count("identifiers_withheld_over_the_wrap", held);
    ctx.sample(|| format!("{} deliveries at QoS {} with identifiers {:?} withheld", n, granted, keep));
    Ok(())
}

/// Every identifier in flight at once
fn exhaust(ctx: &Ctx, w: &mut Worker, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::connect(addr, &Connect::new("greedy"), &SockOpts::default())?;
    c.sub(&[("w", 2)])?;
    let p = Client::connect(addr, &Connect::new("feeder"), &SockOpts { auto_pub: true, ..Default::default() })?;
    let mut ids = Ids::new();
    let mut n = 0;
    while n < 65535 {
        let k = 400.min(65535 - n);
        let mut bytes = vec![];
        for i in 0..k {
            let q = 1 + rng.below(2) as u8;
            let pid = p.pid();
            p.sh.m.lock().unwrap().pending.insert(pid, q);
            bytes.extend(publish(b"w", format!("{}", n + i).as_bytes(), q, pid, false, false));
        }
        p.send(&bytes)?;
        for _ in 0..k {
            let e = c.message()?;
            ids.delivered(&c, &e)?;
            ctx.eval(Some(1 << 50 | n as u64));
        }
        p.settle(0)?;
        n += k;
    }
    // the next messages have to wait for identifiers
    for i in 0..50 {
        p.publish("w", format!("late{}", i).as_bytes(), 1)?;
    }
    p.settle(0)?;
    for _ in 0..40 {
        own(ctx, &c, rng.range(1, 65535) as u16, rng)?;
    }
    c.ping()?;
    for _ in 0..50 {
        let i = rng.below(ids.held.len());
        ids.ack(&c, i)?;
    }
    for _ in 0..50 {
        let e = c.message()?;
        ids.delivered(&c, &e)?;
    }
    ctx.max("most_identifiers_in_flight", ids.in_flight.len() as u64);
    w.restart();
    Ok(())
}

/// A client that has not read for long gets what waits for it at the right QoS, too
fn backlog(ctx: &Ctx, w: &mut Worker, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let granted = [2u8, 1][rng.below(2)];
    let c = Client::connect(addr, &Connect::new("late"), &SockOpts { rcvbuf: Some(64 * 1024), ..Default::default() })?;
    c.sub(&[("b/+", granted), ("b/1", 1)])?;
    c.pause(true);
    let p = Client::connect(addr, &Connect::new("early"), &SockOpts { auto_pub: true, ..Default::default() })?;
    let n = 30_000usize;
    for from in (0..n).step_by(500) {
        let mut bytes = vec![];
        for i in from..from + 500 {
            let q = (i % 3) as u8;
            let pid = if q > 0 { p.pid() } else { 0 };
            if q > 0 {
                p.sh.m.lock().unwrap().pending.insert(pid, q);
            }
            let mut body = format!("{}:", i).into_bytes();
            body.resize(body.len() + 600, b'.');
            bytes.extend(publish(b"b/2", &body, q, pid, false, false));
        }
        p.send(&bytes)?;
        p.settle(0)?;
    }
    c.pause(false);
    let mut ids = Ids::new();
    for i in 0..n {
        let e = c.message().map_err(|f| f.ctx(&format!("{} of {} messages that waited", i, n)))?;
        let m = e.msg();
        let want = granted.min((i % 3) as u8);
        if !m.payload.starts_with(format!("{}:", i).as_bytes()) || m.qos != want {
            return c.bad(format!("message {} that waited should come at QoS {} and is {}", i, want, m.brief()));
        }
        ids.delivered(&c, &e)?;
        if rng.pct(30) && !ids.held.is_empty() {
            let k = rng.below(ids.held.len());
            ids.ack(&c, k)?;
        }
        ctx.eval(Some(1 << 51 | i as u64));
    }
    ctx.max("messages_waiting_for_a_reader", n as u64);
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one delivery, its QoS compared with min(published, highest granted among the matching
         subscriptions) and its identifier with those in flight. Rounds: random overlapping subscriptions and QoS,
         acknowledgements withheld at random and given in random order; more than 65535 deliveries on one connection
         with some identifiers in flight all along (QoS 1, QoS 2, also half-way through the QoS 2 handshake); acknowledgements of identifiers that are not in flight; every
         identifier in flight at once; 30000 messages that waited for a client that did not read; requests of the client's own that carry the identifier of a delivery in flight. Distinct by subscriptions, topic, QoS pair and identifier.",
    );
    ctx.assume("an identifier counts as free from the moment the client starts to send its PUBACK or PUBCOMP");
    let big = ctx.n(67000, 200_000);
    rounds(ctx, 6, ctx.secs(22, 360), 16, |ctx, w, r, rng| match r {
        0 => wrap(ctx, w, r, rng, 1, big),
        1 => wrap(ctx, w, r, rng, 2, big),
        2 => exhaust(ctx, w, rng),
        3 => backlog(ctx, w, rng),
        _ => grid(ctx, w, r, rng),
    });
}

//! Large numbers: many hundreds of clients on the same filters, clients with thousands of filters,
//! and clients joining and leaving such a crowd. Judged message by message against a model.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::BTreeMap;

struct Member {
    c: Client,
    f: BTreeMap<String, u8>,
}

const POOL: &[&str] = &["w/x", "w/+", "w/#", "+/x", "+/+", "#", "w/x/#", "+/#", "w/x/y", "w/+/y", "+/+/+", "w/y"];
const TOPICS: &[&str] = &["w/x", "w/y", "w/x/y", "v/x", "w", "v/z/z", "$w/x"];

fn join(addr: std::net::SocketAddr, ids: Vec<String>) -> Res<Vec<Client>> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let mut cs = vec![];
    for part in ids.chunks(50) {
        let from = cs.len();
        for id in part {
            let c = Client::open(addr, id, &so)?;
            c.send(&Connect::new(id).build())?;
            cs.push(c);
        }
        for c in &cs[from..] {
            c.expect_connack()?;
        }
    }
    Ok(cs)
}

/// Send everyone's request, then await everyone's answer
fn all(ms: &mut [Member], mut f: impl FnMut(usize, &mut Member) -> Option<(Vec<u8>, SPkt)>) -> Res<()> {
    let mut due = vec![];
    for i in 0..ms.len() {
        if let Some((bytes, want)) = f(i, &mut ms[i]) {
            ms[i].c.send(&bytes)?;
            due.push((i, want));
        }
        if due.len() >= 64 {
            take(ms, &mut due)?;
        }
    }
    take(ms, &mut due)
}

fn take(ms: &[Member], due: &mut Vec<(usize, SPkt)>) -> Res<()> {
    for (i, want) in due.drain(..) {
        let a = ms[i].c.answer()?.pkt;
        if a != want {
            return ms[i].c.bad(format!("expected {}, got {}", want.brief(), a.brief()));
        }
    }
    Ok(())
}

fn probe(ctx: &Ctx, ms: &[Member], p: &Client, n: &mut u64, when: &str, rng: &mut Rng) -> Res<()> {
    let mut topics: Vec<(String, u8)> = TOPICS.iter().map(|t| (t.to_string(), rng.below(3) as u8)).collect();
    for _ in 0..20 {
        topics.push((format!("own/{}", rng.below(ms.len())), rng.below(3) as u8));
        topics.push((format!("many/{}/{}", rng.below(4), rng.below(3000)), rng.below(3) as u8));
    }
    rng.shuffle(&mut topics);
    let base = *n;
    for (t, q) in &topics {
        p.publish(t, format!("m{}", n).as_bytes(), *q)?;
        *n += 1;
    }
    let end = format!("end{}", n);
    p.publish("!end", end.as_bytes(), 0)?;
    p.settle(0)?;
    for m in ms {
        let got = m.c.messages_until(end.as_bytes()).map_err(|f| f.ctx(when))?;
        let mut have = got.iter();
        for (i, (t, q)) in topics.iter().enumerate() {
            let by: Vec<(&String, u8)> = m.f.iter().filter(|f| matches(f.0.as_bytes(), t.as_bytes())).map(|f| (f.0, *f.1)).collect();
            let Some(g) = by.iter().map(|f| f.1).max() else { continue };
            let body = format!("m{}", base + i as u64);
            let ok = have.next().is_some_and(|e| e.msg().payload == body.as_bytes() && e.msg().topic == t.as_bytes() && e.msg().qos == g.min(*q) && !e.msg().dup && !e.msg().retain);
            if !ok {
                return m.c.bad(format!(
                    "{}, {} clients: {} published on {} at QoS {} was due here once at QoS {} (matching filters: {:?} of {}); received {:?}",
                    when,
                    ms.len(),
                    body,
                    t,
                    q,
                    g.min(*q),
                    &by[..by.len().min(10)],
                    m.f.len(),
                    got.iter().map(|e| e.msg().brief()).take(40).collect::<Vec<_>>()
                ));
            }
            ctx.eval(Some(hash(format!("crowd {} {} {} {}", when, m.c.name, t, q).as_bytes())));
        }
        if let Some(e) = have.next() {
            return m.c.bad(format!("{}, {} clients: received {} without a matching filter, or twice", when, ms.len(), e.msg().brief()));
        }
    }
    Ok(())
}

pub fn crowd(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let n = ctx.n(1200, 2500);
    let p = Client::connect(addr, &Connect::new("pub"), &SockOpts { auto_pub: true, auto_ack: true, ..Default::default() })?;
    let mut ms: Vec<Member> = join(addr, (0..n).map(|i| format!("m{}", i)).collect())?.into_iter().map(|c| Member { c, f: BTreeMap::new() }).collect();
    let mut num = 0;
    // everyone: the same filter, one of their own, some of the pool
    let mut rg = Rng::new(rng.next(), 1);
    all(&mut ms, |i, m| {
        let mut f: Vec<(String, u8)> = vec![("!end".into(), 0), ("w/x".into(), rg.below(3) as u8), (format!("own/{}", i), rg.below(3) as u8)];
        for _ in 0..rg.below(4) {
            f.push((rg.pick(POOL).to_string(), rg.below(3) as u8));
        }
        if i % 97 == 50 {
            // thousands of filters
            f.extend((0..3000).map(|k| (format!("many/{}/{}", i % 4, k), (k % 3) as u8)));
        }
        m.f.extend(f.iter().cloned());
        Some((subscribe(7, &f), SPkt::SubAck(7, f.iter().map(|x| x.1).collect())))
    })?;
    probe(ctx, &ms, &p, &mut num, "after everyone has subscribed", rng)?;
    let mut rg = Rng::new(rng.next(), 2);
    all(&mut ms, |i, m| {
        if rg.pct(50) {
            return None;
        }
        let mut f = vec!["w/x".to_string()];
        for k in m.f.keys() {
            if k != "!end" && (rg.pct(30) || i % 97 == 50 && rg.pct(50)) {
                f.push(k.clone());
            }
        }
        for k in &f {
            m.f.remove(k);
        }
        Some((unsubscribe(8, &f), SPkt::UnsubAck(8)))
    })?;
    probe(ctx, &ms, &p, &mut num, "after many have unsubscribed", rng)?;
    // many leave, in different ways; some subscribe again
    let mut gone = vec![];
    let mut k = 0;
    while k < ms.len() {
        if rng.pct(30) {
            let m = ms.swap_remove(k);
            match rng.below(3) {
                0 => {
                    m.c.send(&disconnect())?;
                }
                1 => m.c.close(),
                _ => m.c.abort(),
            }
            gone.push(m);
        } else {
            k += 1;
        }
    }
    let mut rg = Rng::new(rng.next(), 3);
    all(&mut ms, |_, m| {
        if rg.pct(60) {
            return None;
        }
        let f: Vec<(String, u8)> = (0..rg.range(1, 3)).map(|_| (rg.pick(POOL).to_string(), rg.below(3) as u8)).collect();
        m.f.extend(f.iter().cloned());
        Some((subscribe(9, &f), SPkt::SubAck(9, f.iter().map(|x| x.1).collect())))
    })?;
    probe(ctx, &ms, &p, &mut num, "after many have left", rng)?;
    // the same identifiers come back, with nothing
    let back = join(addr, gone.iter().map(|m| m.c.name.clone()).collect())?;
    ms.extend(back.into_iter().map(|c| Member { c, f: BTreeMap::new() }));
    let from = ms.len() - gone.len();
    all(&mut ms[from..], |_, m| {
        m.f.insert("!end".into(), 0);
        Some((subscribe(9, &[("!end", 0)]), SPkt::SubAck(9, vec![0])))
    })?;
    probe(ctx, &ms, &p, &mut num, "after those who left have come back", rng)?;
    ctx.max("largest_crowd", n as u64);
    ctx.count("crowds", 1);
    let _ = r;
    w.restart();
    Ok(())
}

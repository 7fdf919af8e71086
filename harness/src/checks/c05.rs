//! SUBSCRIBE and UNSUBSCRIBE against a sequential model.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::BTreeMap;

const FILTERS: &[&str] = &[
    "a", "a/b", "a/b/c", "a/b/c/d", "a/#", "a/b/#", "a/b/c/#", "#", "+", "+/b", "a/+", "a/+/c", "+/+", "+/+/c", "+/#", "a/+/#", "/", "/a",
    "a/", "a//c", "//", "b", "b/b", "b/#", "+/b/+", "$d/a", "$d/#", "$d/+", "a/b/+", "/#", "/+", "é/ü", "é/#",
    "$share/g/a", "$share/g/a/b", "$share/g/a/#", "$share/g/+", "$share/g/#", "$share/g", "$share/h/a", "$share//a",
];
const TOPICS: &[&str] = &[
    "a", "a/b", "a/b/c", "a/b/c/d", "b", "b/b", "/", "/a", "a/", "a//c", "//", "x", "a/x", "a/x/c", "x/b", "$d/a", "$d", "é/ü", "b/b/b", "a/b/x",
    "$share/g/a", "$share/g/a/b", "$share/g", "$share/h/a", "$share//a",
];

struct C {
    c: Client,
    f: BTreeMap<&'static str, u8>,
}

fn probe(ctx: &Ctx, cs: &[C], p: &Client, topics: &[(&str, u8)], n: &mut u64, hist: &[String]) -> Res<()> {
    let base = *n;
    for (t, q) in topics {
        p.publish(t, format!("m{}", n).as_bytes(), *q)?;
        *n += 1;
    }
    let end = format!("end{}", n);
    *n += 1;
    p.publish("!end", end.as_bytes(), 0)?;
    for c in cs {
        let got = c.c.messages_until(end.as_bytes())?;
        let mut want = vec![];
        for (i, (t, q)) in topics.iter().enumerate() {
            let by: Vec<(&str, u8)> = c.f.iter().filter(|f| matches(f.0.as_bytes(), t.as_bytes())).map(|f| (*f.0, *f.1)).collect();
            if let Some(g) = by.iter().map(|f| f.1).max() {
                want.push((format!("m{}", base + i as u64), t.to_string(), g.min(*q)));
            }
            ctx.eval(Some(hash(format!("{:?}|{}|{}", c.f, t, q).as_bytes())));
        }
        let have: Vec<(String, String, u8)> = got
            .iter()
            .map(|e| {
                let m = e.msg();
                (String::from_utf8_lossy(&m.payload).to_string(), String::from_utf8_lossy(&m.topic).to_string(), m.qos)
            })
            .collect();
        if want != have {
            let missing: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
            let extra: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
            return c.c.bad(format!(
                "subscriptions {:?}: expected {} messages, got {}; missing {:?}, unexpected {:?}\n    history: {}",
                c.f,
                want.len(),
                have.len(),
                missing,
                extra,
                hist.iter().rev().take(40).rev().cloned().collect::<Vec<_>>().join("; ")
            ));
        }
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 8 == 7 {
        w.restart();
    }
    let addr = w.broker(&Opts::default())?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let fresh = |i: usize, k: u64| -> Res<C> {
        let c = Client::connect(addr, &Connect::new(&format!("c{}-{}-{}", r, i, k)), &so)?;
        c.sub(&[("!end", 0)])?;
        Ok(C { c, f: BTreeMap::new() })
    };
    // few filters: much overlap, and tree nodes that come and go
    let mut pool: Vec<&'static str> = FILTERS.to_vec();
    rng.shuffle(&mut pool);
    pool.truncate(rng.range(2, FILTERS.len()));
    let n = rng.range(1, 5);
    let mut cs = vec![];
    for i in 0..n {
        cs.push(fresh(i, 0)?);
    }
    let p = Client::connect(addr, &Connect::new(&format!("p{}", r)), &so)?;
    let mut num = 0;
    let mut hist: Vec<String> = vec![];
    let steps = rng.range(10, 60);
    for step in 0..steps {
        let i = rng.below(n);
        match rng.below(10) {
            0..=3 => {
                let k = if rng.pct(30) { rng.range(2, 6) } else { 1 };
                let f: Vec<(&'static str, u8)> = (0..k).map(|_| (*rng.pick(&pool), rng.below(3) as u8)).collect();
                hist.push(format!("{} sub {:?}", i, f));
                cs[i].c.sub(&f)?;
                for (t, q) in f {
                    cs[i].f.insert(t, q);
                }
            }
            4..=6 => {
                let k = if rng.pct(30) { rng.range(2, 6) } else { 1 };
                let held: Vec<&'static str> = cs[i].f.keys().cloned().collect();
                let f: Vec<&'static str> = (0..k).map(|_| if rng.pct(75) && !held.is_empty() { *rng.pick(&held) } else { *rng.pick(&pool) }).collect();
                hist.push(format!("{} unsub {:?}", i, f));
                cs[i].c.unsub(&f)?;
                for t in f {
                    cs[i].f.remove(t);
                }
            }
            7 => {
                // several requests in one segment
                let mut bytes = vec![];
                let mut expect = vec![];
                for _ in 0..rng.range(2, 12) {
                    let t = *rng.pick(&pool);
                    let id = cs[i].c.pid();
                    if rng.pct(50) {
                        let q = rng.below(3) as u8;
                        bytes.extend(subscribe(id, &[(t, q)]));
                        expect.push(SPkt::SubAck(id, vec![q]));
                        hist.push(format!("{} sub {} {}", i, t, q));
                        cs[i].f.insert(t, q);
                    } else {
                        bytes.extend(unsubscribe(id, &[t]));
                        expect.push(SPkt::UnsubAck(id));
                        hist.push(format!("{} unsub {}", i, t));
                        cs[i].f.remove(t);
                    }
                }
                cs[i].c.send(&bytes)?;
                for e in expect {
                    let a = cs[i].c.answer()?.pkt;
                    if a != e {
                        return cs[i].c.bad(format!("expected {}, got {}", e.brief(), a.brief()));
                    }
                }
            }
            8 => {
                // unsubscribe everything it holds
                let held: Vec<&'static str> = cs[i].f.keys().cloned().collect();
                if !held.is_empty() {
                    hist.push(format!("{} unsub all {:?}", i, held));
                    cs[i].c.unsub(&held)?;
                    cs[i].f.clear();
                }
            }
            _ => {
                hist.push(format!("{} leaves, another one comes", i));
                match rng.below(3) {
                    0 => {
                        let _ = cs[i].c.try_send(&disconnect());
                        cs[i].c.expect_closed(WAIT)?;
                    }
                    1 => cs[i].c.close(),
                    _ => cs[i].c.abort(),
                }
                cs[i] = fresh(i, step as u64 + 1)?;
            }
        }
        let k = rng.range(3, 14);
        let topics: Vec<(&str, u8)> = (0..k).map(|_| (*rng.pick(TOPICS), rng.below(3) as u8)).collect();
        probe(ctx, &cs, &p, &topics, &mut num, &hist)?;
        p.settle(0)?;
    }
    ctx.sample(|| format!("{} clients: {}", n, hist.join("; ")));
    ctx.count("operations", steps as u64);
    Ok(())
}

/// Many clients on few filters, joining and giving up one at a time, looked at after every step
fn ladder(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let n = *rng.pick(&[10usize, 18, 20, 34, 40, 66]);
    let mut pool: Vec<&'static str> = ["a/b", "a/+", "a/#", "+/b", "#", "a/b/c", "é/ü"].to_vec();
    rng.shuffle(&mut pool);
    pool.truncate(rng.range(1, 3));
    let mut cs = vec![];
    for i in 0..n {
        let c = Client::connect(addr, &Connect::new(&format!("l{}-{}", r, i)), &so)?;
        c.sub(&[("!end", 0)])?;
        cs.push(C { c, f: BTreeMap::new() });
    }
    let p = Client::connect(addr, &Connect::new(&format!("p{}", r)), &so)?;
    let mut num = 0;
    let mut hist = vec![];
    for up in [true, false, true, false] {
        let mut order: Vec<(usize, &'static str)> = (0..n).flat_map(|i| pool.iter().map(move |f| (i, *f))).collect();
        match rng.below(3) {
            0 => {}
            1 => order.reverse(),
            _ => rng.shuffle(&mut order),
        }
        for (k, (i, f)) in order.iter().enumerate() {
            let q = rng.below(3) as u8;
            hist.push(format!("{} {} {}", i, if up { "sub" } else { "unsub" }, f));
            if up {
                cs[*i].c.sub(&[(*f, q)])?;
                cs[*i].f.insert(f, q);
            } else if rng.pct(6) && k % 2 == 0 {
                // gone altogether, and back without a filter
                cs[*i].c.close();
                let c = Client::connect(addr, &Connect::new(&format!("l{}-{}", r, i)), &so)?;
                c.sub(&[("!end", 0)])?;
                cs[*i] = C { c, f: BTreeMap::new() };
            } else {
                cs[*i].c.unsub(&[*f])?;
                cs[*i].f.remove(f);
            }
            let topics: Vec<(&str, u8)> = vec![(*rng.pick(&["a/b", "a/x", "a/b/c", "x/b", "é/ü", "a"]), rng.below(3) as u8), ("a/b", 1)];
            probe(ctx, &cs, &p, &topics, &mut num, &hist)?;
            p.settle(0)?;
        }
    }
    ctx.max("longest_ladder", n as u64);
    w.restart();
    Ok(())
}

/// A filter is live from its SUBACK on and dead from its UNSUBACK on, under concurrent publishing
fn racing(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts { preempt: Some((500, 400)), ..Default::default() })?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut seeds: Vec<Rng> = (0..4).map(|i| Rng::new(rng.next(), i)).collect();
    let fail = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for (i, rng) in seeds.iter_mut().enumerate() {
            let (fail, stop, so) = (&fail, &stop, &so);
            s.spawn(move || {
                let mut go = || -> Res<()> {
                    // subscriber and publisher of its own topic; everyone shares the parent levels
                    let c = Client::connect(addr, &Connect::new(&format!("c{}", i)), so)?;
                    let p = Client::connect(addr, &Connect::new(&format!("p{}", i)), so)?;
                    c.sub(&[(format!("!end/{}", i), 0)])?;
                    let t = format!("s/x/{}", i);
                    let fs = [t.clone(), format!("s/+/{}", i), format!("+/x/{}", i), format!("s/x/{}/#", i)];
                    for k in 0..60 {
                        if stop.load(std::sync::atomic::Ordering::SeqCst) {
                            return Ok(());
                        }
                        let f = rng.pick(&fs).clone();
                        c.sub(&[(f.as_str(), 1)])?;
                        p.publish(&t, format!("in{}", k).as_bytes(), rng.below(3) as u8)?;
                        if rng.pct(50) {
                            p.ping()?;
                        } else {
                            // delivered before given up
                            let e = c.message()?;
                            if e.msg().payload != format!("in{}", k).as_bytes() {
                                return c.bad(format!("expected in{}, got {}", k, e.msg().brief()));
                            }
                            c.unsub(&[f.as_str()])?;
                            p.publish(&t, format!("out{}", k).as_bytes(), 0)?;
                            p.publish(format!("!end/{}", i), format!("end{}", k).as_bytes(), 0)?;
                            let left = c.messages_until(format!("end{}", k).as_bytes())?;
                            if let Some(e) = left.first() {
                                return c.bad(format!("after UNSUBACK of {}: {}", f, e.msg().brief()));
                            }
                            ctx.eval(Some(hash(format!("race{}{}{}", i, k, f).as_bytes())));
                            continue;
                        }
                        p.publish(format!("!end/{}", i), format!("end{}", k).as_bytes(), 0)?;
                        let got = c.messages_until(format!("end{}", k).as_bytes())?;
                        if got.len() != 1 || got[0].msg().payload != format!("in{}", k).as_bytes() {
                            return c.bad(format!("after SUBACK of {}: expected in{} once, got {:?}", f, k, got.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()));
                        }
                        c.unsub(&[f.as_str()])?;
                        ctx.eval(Some(hash(format!("race{}{}{}", i, k, f).as_bytes())));
                    }
                    Ok(())
                };
                if let Err(e) = go() {
                    stop.store(true, std::sync::atomic::Ordering::SeqCst);
                    fail.lock().unwrap().get_or_insert(e);
                }
            });
        }
    });
    ctx.count("concurrent_histories", 1);
    let _ = r;
    match fail.into_inner().unwrap() {
        Some(f) => Err(f),
        None => {
            w.restart();
            Ok(())
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one probe message against one client's subscriptions after an acknowledged operation (expected
         exactly once at the expected QoS, or not at all). Histories: 1-5 clients, random SUBSCRIBE (one or many
         filters, repeated, changed QoS), UNSUBSCRIBE (held or not, one or many), pipelined runs of both, unsubscribe
         all, clients leaving and coming, over a small pool of equal, parent, child and overlapping filters; up to 66
         clients on the same filters joining and giving up one at a time; and
         concurrent histories under injected preemption. Distinct by (subscriptions held, topic, QoS).",
    );
    rounds(ctx, 8, ctx.secs(25, 400), 32, |ctx, w, r, rng| if r % 200 == 1 { super::crowd::crowd(ctx, w, r, rng) } else if r % 40 == 2 { ladder(ctx, w, r, rng) } else if r % 8 == 6 { racing(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

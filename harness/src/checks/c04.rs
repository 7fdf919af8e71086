//! Order: each subscriber sees each publisher's messages in the order they were sent.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::collections::HashMap;

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let pre = [None, Some((2000, 300)), Some((20000, 60)), Some((500, 3000))][(r % 4) as usize];
    let o = Opts { preempt: pre, sndbuf: (r % 3 == 1).then_some(4608), short: (r % 5 == 3).then_some(300), ..Default::default() };
    w.restart();
    let addr = w.broker(&o)?.addr;
    let np = rng.range(1, 5);
    let ns = rng.range(1, 4);
    let per = rng.range(50, 600 / np.min(3));
    // payloads of hundreds of kilobytes among small ones; readers and buffers of ordinary size then
    let heavy = r % 3 == 2;
    let filters = ["#", "o/#", "o/+/+", "+/+/#"];
    let mut subs = vec![];
    for i in 0..ns {
        let so = SockOpts { auto_ack: true, chunk: (!heavy && rng.pct(30)).then(|| rng.range(20, 2000)), rcvbuf: (!heavy && rng.pct(30)).then_some(4608), ..Default::default() };
        let c = Client::connect(addr, &Connect::new(&format!("s{}", i)), &so)?;
        let f: Vec<(&str, u8)> = (0..rng.range(1, 3)).map(|_| (*rng.pick(&filters), rng.below(3) as u8)).collect();
        c.sub(&f)?;
        if rng.pct(30) {
            // individual topics instead of a wildcard, too
            let f: Vec<(String, u8)> = (0..8).map(|i| (format!("o/{}/{}", i % 2, i), rng.below(3) as u8)).collect();
            c.sub(&f)?;
        }
        subs.push(c);
    }
    // publishers that also receive, and change their subscriptions, while they publish
    let mut seeds: Vec<Rng> = (0..np).map(|i| Rng::new(rng.next(), i as u64)).collect();
    let fail = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for (i, rng) in seeds.iter_mut().enumerate() {
            let fail = &fail;
            s.spawn(move || {
                let mut go = || -> Res<()> {
                    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
                    let p = Client::connect(addr, &Connect::new(&format!("p{}", i)), &so)?;
                    if rng.pct(30) {
                        p.sub(&[("o/0/+", 2)])?;
                    }
                    let mut n = 0;
                    while n < per {
                        // a burst in one segment, or packet by packet
                        let mut bytes = vec![];
                        for _ in 0..rng.range(1, 40).min(per - n) {
                            let q = rng.below(3) as u8;
                            let pid = if q > 0 { p.pid() } else { 0 };
                            if q > 0 {
                                p.sh.m.lock().unwrap().pending.insert(pid, q);
                            }
                            let mut body = format!("{}:{}:", i, n).into_bytes();
                            let pad = if heavy && rng.pct(2) { rng.range(50_000, 300_000) } else if rng.pct(5) { rng.below(20000) } else { rng.below(40) };
                            body.extend(vec![b'.'; pad]);
                            let mut t = format!("o/{}/{}", rng.below(2), rng.below(8));
                            if rng.pct(6) {
                                // nothing in it: the topic says which it is
                                t = format!("o/{}/{}:{}:", rng.below(2), i, n);
                                body.clear();
                            }
                            bytes.extend(publish(t.as_bytes(), &body, q, pid, false, false));
                            n += 1;
                        }
                        p.send(&bytes)?;
                        if rng.pct(10) {
                            p.settle(0)?;
                        }
                    }
                    p.settle(0)?;
                    p.publish("o/end/0", format!("{}:{}:end", i, per).as_bytes(), 0)?;
                    p.ping()
                };
                if let Err(e) = go() {
                    fail.lock().unwrap().get_or_insert(e);
                }
            });
        }
    });
    if let Some(f) = fail.into_inner().unwrap() {
        return Err(f);
    }
    for c in &subs {
        let mut last: HashMap<usize, i64> = HashMap::new();
        let mut sig: Vec<u8> = vec![];
        let mut done = 0;
        while done < np {
            let e = c.message().map_err(|f| f.ctx(&format!("{} of {} publishers done", done, np)))?;
            let m = e.msg();
            let name = m.topic.rsplit(|b| *b == b'/').next().unwrap_or(&[]);
            let said = if m.payload.is_empty() { name } else { &m.payload[..m.payload.len().min(40)] };
            let s = String::from_utf8_lossy(said).to_string();
            let mut it = s.split(':');
            let (Some(Ok(p)), Some(Ok(n))) = (it.next().map(|x| x.parse::<usize>()), it.next().map(|x| x.parse::<i64>())) else {
                return c.bad(format!("unknown message {}", m.brief()));
            };
            let l = last.entry(p).or_insert(-1);
            if n <= *l {
                viol!("subscriber {} received message {} of publisher {} after its message {} ({})", c.name, n, p, l, m.brief());
            }
            *l = n;
            sig.push(p as u8);
            ctx.eval(None);
            if n as usize == per {
                done += 1;
            }
        }
        // how the publishers' messages were interleaved
        ctx.distinct.lock().unwrap().insert(hash(&sig));
        ctx.count("interleavings_switches", sig.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    }
    ctx.sample(|| format!("{} publishers x {} messages over 16 topics, 3 QoS levels to {} subscribers, preemption {:?}", np, per, ns, pre));
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one delivery, its sequence number compared with the last one from the same publisher on that
         connection. Rounds: 1-5 concurrent publishers (bursts in one segment, mixed topics, QoS and sizes from nothing to 300 kB) to 1-4
         subscribers with overlapping filters, slow readers and small buffers, with random preemption injected into the
         broker. Distinct: orders in which the publishers' messages interleaved at a subscriber.",
    );
    rounds(ctx, 6, ctx.secs(25, 400), 24, round);
}

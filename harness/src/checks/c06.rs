//! Every request gets exactly its answer, in order.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

const BAD: &[&str] = &["", "a/#/b", "a#", "#a", "a+", "+a", "a/b+/c", "##", "++", "a/#b", "#/#", "#/", "a/++/b", "sport/tennis#"];
const GOOD: &[&str] = &["a", "a/b", "#", "+", "a/+/b", "a/#", "/", "+/+", "/#", "é", "$SYS/#", "a b", "x/y/z/+/q"];

fn pid(rng: &mut Rng) -> u16 {
    if rng.pct(30) {
        *rng.pick(&[1u16, 2, 127, 128, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65280, 65534, 65535])
    } else {
        rng.range(1, 65535) as u16
    }
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 20 == 19 {
        w.restart();
    }
    let sndbuf = (r % 2 == 0 && w.broker.is_none()).then_some(30000);
    let short = (r % 5 == 1 && w.broker.is_none()).then_some(400);
    let b = w.broker(&Opts { short, preempt: (r % 4 == 3 && w.broker.is_none()).then_some((500, 300)), sndbuf, ..Default::default() })?;
    let (addr, ctl) = (b.addr, b.ctl);
    // some listen to their own traffic as well
    let noisy = rng.pct(40);
    // some do not read for a while, with much waiting to be sent to them
    let stalled = noisy && rng.pct(50);
    let c = Client::connect(
        addr,
        &Connect::new(&format!("c{}-{}", r, w.index)),
        &SockOpts { auto_ack: false, rcvbuf: stalled.then_some(100_000), ..Default::default() },
    )?;
    let o = if stalled { Some(Client::simple(addr, &format!("o{}-{}", r, w.index))?) } else { None };
    if noisy {
        // at QoS 1 and 2 they owe the broker acknowledgements of ever more deliveries
        c.sub(&[("n/#", if stalled { 0 } else { rng.below(3) as u8 })])?;
    }
    let mut publishes: HashMap<u16, Vec<u8>> = HashMap::new();
    let mut total = 0;
    for _ in 0..rng.range(1, 4) {
        let n = *rng.pick(&[1, 2, 3, 5, 10, 40, 150]);
        let mut bytes = vec![];
        let mut segments = vec![];
        let mut expect = vec![];
        let mut text = vec![];
        for _ in 0..n {
            let id = pid(rng);
            let before = bytes.len();
            match rng.below(12) {
                0 | 1 => {
                    let k = match rng.below(40) {
                        0..=4 => rng.range(10, 200),
                        5 => rng.range(200, 1500),
                        6 => *rng.pick(&[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4000]),
                        _ => rng.range(1, 5),
                    };
                    let mut f: Vec<(String, u8)> = vec![];
                    let mut codes = vec![];
                    for _ in 0..k {
                        let q = rng.below(3) as u8;
                        if rng.pct(25) {
                            f.push((rng.pick(BAD).to_string(), q));
                            codes.push(0x80);
                        } else {
                            f.push((format!("z{}/{}", r, rng.pick(GOOD)), q));
                            codes.push(q);
                        }
                    }
                    bytes.extend(subscribe(id, &f));
                    expect.push(SPkt::SubAck(id, codes));
                }
                2 | 3 => {
                    let k = if rng.pct(4) { *rng.pick(&[100, 255, 256, 257, 1000, 3000]) } else { rng.range(1, 5) };
                    let f: Vec<String> = (0..k).map(|_| format!("z{}/{}", r, rng.pick(GOOD))).collect();
                    bytes.extend(unsubscribe(id, &f));
                    expect.push(SPkt::UnsubAck(id));
                }
                4 => bytes.extend(publish(b"n/0", &rng.bytes(rng.clone().below(50)), 0, 0, false, rng.pct(20))),
                5 | 6 => {
                    bytes.extend(publish(b"n/1", b"one", 1, id, rng.pct(20), rng.pct(20)));
                    expect.push(SPkt::PubAck(id));
                }
                7 => {
                    // the same content when the identifier is still in use
                    let used = publishes.contains_key(&id);
                    let body = publishes.entry(id).or_insert_with(|| format!("two{}", id).into_bytes()).clone();
                    bytes.extend(publish(b"n/2", &body, 2, id, used, false));
                    expect.push(SPkt::PubRec(id));
                }
                8 => {
                    let ids: Vec<u16> = publishes.keys().cloned().collect();
                    let id = if rng.pct(70) && !ids.is_empty() { *rng.pick(&ids) } else { id };
                    bytes.extend(pubrel(id));
                    expect.push(SPkt::PubComp(id));
                    publishes.remove(&id);
                }
                9 => {
                    bytes.extend(pubrec(id));
                    expect.push(SPkt::PubRel(id));
                }
                10 => bytes.extend(if rng.pct(50) { puback(id) } else { pubcomp(id) }),
                _ => {
                    bytes.extend(pingreq());
                    expect.push(SPkt::PingResp);
                }
            }
            text.push(hex(&bytes[before..]));
            segments.push(before);
        }
        bytes.extend(pingreq());
        expect.push(SPkt::PingResp);
        if let Some(o) = &o {
            c.pause(true);
            for _ in 0..rng.range(1, 3) {
                let n = *rng.pick(&[50_000, 200_000, 500_000, 1_000_000]);
                o.publish("n/big", &vec![b'b'; n], 0)?;
            }
            o.ping()?;
        }
        let had = ctl.recv_bytes.load(SeqCst);
        if rng.pct(70) {
            c.send(&bytes)?;
        } else {
            segments.push(bytes.len());
            for x in segments.windows(2) {
                c.send(&bytes[x[0]..x[1]])?;
            }
        }
        if stalled {
            let t0 = Instant::now();
            while ctl.recv_bytes.load(SeqCst) < had + bytes.len() as u64 && t0.elapsed() < Duration::from_millis(200) {
                std::thread::sleep(Duration::from_millis(1));
            }
            std::thread::sleep(Duration::from_millis(3));
            c.pause(false);
            ctx.count("pipelines_answered_behind_a_backlog", 1);
        }
        for (i, e) in expect.iter().enumerate() {
            let a = c.answer().map_err(|f| f.ctx(&format!("answer {} of {}: expected {}; requests {}", i, expect.len(), e.brief(), text.join(" "))))?.pkt;
            if a != *e {
                return c.bad(format!("answer {} of {}: expected {}, got {}; requests {}", i, expect.len(), e.brief(), a.brief(), text.join(" ")));
            }
            ctx.eval(Some(hash(format!("{:?}{}", e, n).as_bytes())));
        }
        ctx.max("longest_pipeline", n as u64);
        total += expect.len();
        ctx.sample(|| format!("requests {} answers {:?}", text.join(" "), expect.iter().map(|e| e.brief()).collect::<Vec<_>>()));
    }
    // nothing more
    c.ping()?;
    if let Some(a) = c.take_answers().first() {
        return c.bad(format!("an answer nobody asked for: {}", a.pkt.brief()));
    }
    ctx.count("answers_compared", total as u64);
    Ok(())
}

/// Every packet identifier once, for one type of request
fn all_ids(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::connect(addr, &Connect::new(&format!("all{}", r)), &SockOpts::default())?;
    let mut ids: Vec<u16> = (1..=65535).collect();
    if rng.pct(50) {
        rng.shuffle(&mut ids);
    }
    for part in ids.chunks(3000) {
        let mut bytes = vec![];
        let mut expect = vec![];
        for &id in part {
            match r % 6 {
                0 => {
                    bytes.extend(subscribe(id, &[("k", (id % 3) as u8)]));
                    expect.push(SPkt::SubAck(id, vec![(id % 3) as u8]));
                }
                1 => {
                    bytes.extend(unsubscribe(id, &["k"]));
                    expect.push(SPkt::UnsubAck(id));
                }
                2 => {
                    bytes.extend(publish(b"v", b"", 1, id, false, false));
                    expect.push(SPkt::PubAck(id));
                }
                3 => {
                    bytes.extend(publish(b"v", b"", 2, id, false, false));
                    expect.push(SPkt::PubRec(id));
                }
                4 => {
                    bytes.extend(pubrel(id));
                    expect.push(SPkt::PubComp(id));
                }
                _ => {
                    bytes.extend(pubrec(id));
                    expect.push(SPkt::PubRel(id));
                }
            }
        }
        c.send(&bytes)?;
        for e in expect {
            let a = c.answer()?.pkt;
            if a != e {
                return c.bad(format!("expected {}, got {}", e.brief(), a.brief()));
            }
            ctx.eval(Some(hash(format!("{:?}", e).as_bytes())));
        }
    }
    ctx.count("all_identifier_sweeps", 1);
    c.ping()
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one answer compared with the next one expected (type, identifier, return codes). Rounds: random
         pipelines of 1-150 SUBSCRIBE (1-4000 filters, valid and not), UNSUBSCRIBE, PUBLISH at each QoS, PUBREL, PUBREC,
         PUBACK, PUBCOMP and PINGREQ in one segment or one packet at a time, closed by a PINGREQ so that a missing or
         additional answer shows without waiting; some clients receive what they publish and leave many deliveries
         unacknowledged; some of them while the client does not read and up to 3 MB wait for it;
         sweeps over all 65535 identifiers per request type. Distinct by
         expected answer and pipeline length.",
    );
    rounds(ctx, 8, ctx.secs(20, 300), 40, |ctx, w, r, rng| if r < 6 || r % 200 == 199 { all_ids(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

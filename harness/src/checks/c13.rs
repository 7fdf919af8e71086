//! Hostile clients against canaries.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

/// A legal packet with nothing modest about it
fn packet(rng: &mut Rng) -> Vec<u8> {
    let topic = topic(rng);
    let filter = filter(rng);
    let pid = *rng.pick(&[1u16, 2, 255, 256, 65535]);
    let q = rng.below(3) as u8;
    match rng.below(14) {
        0..=3 => {
            let n = *rng.pick(&[0, 1, 10, 127, 128, 1000, 16383, 20000]);
            let pay = rng.bytes(n);
            publish(&topic, &pay, q, pid, rng.pct(20) && q > 0, rng.pct(20))
        }
        4 | 5 => {
            let n = *rng.pick(&[1, 1, 2, 5, 40]);
            let fs: Vec<(Vec<u8>, u8)> = (0..n).map(|_| (if rng.pct(70) { filter.clone() } else { b"hx/+".to_vec() }, rng.below(3) as u8)).collect();
            subscribe(pid, &fs)
        }
        6 => unsubscribe(pid, &[filter]),
        7 => unsubscribe(pid, &[filter, b"hx/#".to_vec(), b"hx".to_vec()]),
        8 => puback(pid),
        9 => pubrec(pid),
        10 => pubrel(pid),
        11 => pubcomp(pid),
        12 => pingreq(),
        _ => publish(b"hx/a", &rng.next().to_le_bytes(), q, pid, false, false),
    }
}

fn deep(rng: &mut Rng, part: &str) -> Vec<u8> {
    let n = *rng.pick(&[50usize, 100, 150, 199, 200, 201, 250, 1000, 10000, 21000, 32000]);
    let mut s = part.repeat(n).into_bytes();
    s.truncate(65535);
    s
}

fn topic(rng: &mut Rng) -> Vec<u8> {
    match rng.below(10) {
        0 => deep(rng, "/"),
        1 => deep(rng, "h/"),
        6 | 7 => {
            let n = *rng.pick(&[1, 10, 40, 100, 200, 300, 1000, 5000, 65000]);
            let cut = rng.below(n);
            format!("{}/{}", rng.glyphs(cut), rng.glyphs(n - cut)).into_bytes()
        }
        2 => vec![b'h'; 65535],
        3 => "hx/日本/😀".into(),
        4 => b"$SYS/broker/x".to_vec(),
        5 => b"$share/g/hx".to_vec(),
        _ => format!("hx/{}/{}", rng.below(3), rng.below(3)).into_bytes(),
    }
}

fn filter(rng: &mut Rng) -> Vec<u8> {
    match rng.below(17) {
        0 => deep(rng, "/"),
        13..=15 => {
            let n = *rng.pick(&[1, 10, 40, 100, 200, 300, 1000, 5000, 65000]);
            let cut = rng.below(n);
            let (a, b) = (rng.glyphs(cut), rng.glyphs(n - cut));
            rng.pick(&[format!("{}/{}", a, b), format!("{}/+/{}", a, b), format!("{}/{}/#", a, b), format!("$share/{}/{}", a, b), format!("{}+{}", a, b)]).clone().into_bytes()
        }
        1 => deep(rng, "+/"),
        2 => {
            let mut f = deep(rng, "h/");
            f.truncate(65534);
            f.push(b'#');
            f
        }
        3 => b"hx/#/x".to_vec(),
        4 => b"hx+/#".to_vec(),
        5 => b"#".to_vec(),
        6 => b"$share/g/hx/#".to_vec(),
        7 => b"$share//#".to_vec(),
        8 => b"$share".to_vec(),
        9 => b"$share/".to_vec(),
        10 => vec![b'+'; 3000],
        11 => b"canary/#".to_vec(),
        12 => rng.pick(&["", "#/", "/#", "+/+", "$SYS/#", "$", "//", "+", "$share/+/x", "$share/g#/x", "$share/g"]).as_bytes().to_vec(),
        _ => format!("hx/{}/+", rng.below(3)).into_bytes(),
    }
}

fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 8) {
        if b.is_empty() {
            return;
        }
        let i = if rng.pct(40) { rng.below(b.len().min(12)) } else { rng.below(b.len()) };
        match rng.below(9) {
            0 | 1 => b[i] ^= 1 << rng.below(8),
            2 => b[i] = *rng.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x30, 0x82, 0xf0]),
            3 => b[i] = rng.next() as u8,
            4 => b.insert(i, rng.next() as u8),
            5 => {
                b.remove(i);
            }
            6 => b.truncate(i),
            7 => {
                let j = rng.range(i, (i + 40).min(b.len()));
                let part = b[i..j].to_vec();
                let at = rng.below(b.len());
                b.splice(at..at, part);
            }
            _ => {
                let j = rng.range(i, (i + 40).min(b.len()));
                b.drain(i..j);
            }
        }
    }
}

fn connect(rng: &mut Rng, id: &str) -> Vec<u8> {
    let more = if rng.pct(20) { rng.clone().below(70) } else { 0 };
    let mut c = Connect::new(&(id.to_string() + &rng.glyphs(more)));
    c.clean = rng.pct(90);
    c.keepalive = *rng.pick(&[0, 0, 1, 60, 65535]);
    if rng.pct(15) {
        c.will = Some((topic(rng), rng.bytes(rng.clone().below(300)), rng.below(3) as u8, rng.pct(50)));
    }
    if rng.pct(15) {
        c.user = Some(rng.pick(&["", "user", "日本", &rng.clone().glyphs(300)]).as_bytes().to_vec());
        if rng.pct(50) {
            c.pass = Some(rng.bytes(20));
        }
    }
    c.build()
}

/// What one hostile connection sends
pub fn stream(rng: &mut Rng, id: &str) -> (&'static str, Vec<u8>) {
    match rng.below(12) {
        0 => {
            let n = rng.range(1, 3000);
            ("random bytes", rng.bytes(n))
        }
        1 => {
            let mut b = connect(rng, id);
            let n = rng.range(1, 3000);
            b.extend(rng.bytes(n));
            ("random bytes after CONNECT", b)
        }
        2 => {
            let mut b = connect(rng, id);
            mutate(rng, &mut b);
            b.extend(packet(rng));
            ("mutated CONNECT", b)
        }
        3..=6 => {
            let mut b = connect(rng, id);
            for _ in 0..rng.range(1, 12) {
                let mut p = packet(rng);
                if rng.pct(30) {
                    mutate(rng, &mut p);
                }
                b.extend(p);
            }
            ("mutated packets", b)
        }
        7 => {
            // only the body is noise; the frame is right
            let mut b = connect(rng, id);
            for _ in 0..rng.range(1, 6) {
                let n = rng.below(40);
                let mut body = rng.bytes(n);
                if n >= 2 && rng.pct(60) {
                    body[0] = 0;
                    body[1] = rng.below(n + 3) as u8;
                }
                let first = *rng.pick(&[0x30u8, 0x32, 0x34, 0x82, 0xa2, 0x40, 0x50, 0x62, 0x70, 0x3d, 0x33]);
                b.extend(raw(first, &body));
            }
            ("framed noise", b)
        }
        8 => {
            let mut b = connect(rng, id);
            let first = *rng.pick(&[0x30u8, 0x32, 0x82, 0xa2, 0x10, 0xc0]);
            b.push(first);
            b.extend(*rng.pick(&[&[0xff, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0xff, 0xff], &[0x80, 0x80, 0x80, 0x01], &[0xff, 0xff, 0x7f]]));
            let n = rng.below(5000);
            b.extend(rng.bytes(n));
            ("huge length", b)
        }
        9 => {
            let mut b = connect(rng, id);
            for _ in 0..rng.range(1, 60) {
                b.extend(packet(rng));
            }
            ("legal packets", b)
        }
        10 => {
            let mut b = vec![];
            for _ in 0..rng.range(1, 4) {
                b.extend(connect(rng, id));
                b.extend(packet(rng));
            }
            ("several CONNECTs", b)
        }
        _ => {
            let mut b = connect(rng, id);
            for _ in 0..rng.range(1, 10) {
                b.extend(packet(rng));
            }
            let n = rng.below(b.len());
            b.truncate(n);
            ("cut short", b)
        }
    }
}

/// Send it, end somehow
pub fn attack(rng: &mut Rng, addr: SocketAddr, b: &[u8]) -> Res<&'static str> {
    let mut s = match tcp(addr) {
        Ok(s) => s,
        Err(e) => return Err(silence(Fail::V(format!("the broker no longer accepts connections: {}", e)))),
    };
    let _ = s.set_nodelay(true);
    let _ = s.set_write_timeout(Some(Duration::from_secs(2)));
    let _ = s.set_read_timeout(Some(Duration::from_millis(*rng.pick(&[1, 5, 20]))));
    // the broker may have closed the connection before everything is sent
    if rng.pct(70) {
        let _ = s.write_all(b);
    } else {
        let mut rest = b;
        let mut k = 0;
        while !rest.is_empty() {
            let n = rng.range(1, rest.len().min(if k < 40 { 30 } else { rest.len() }));
            if s.write_all(&rest[..n]).is_err() {
                break;
            }
            rest = &rest[n..];
            k += 1;
            if rng.pct(10) {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    let mut tmp = [0u8; 4096];
    Ok(match rng.below(6) {
        0 => {
            crate::sys::abort(s.as_raw_fd());
            "reset"
        }
        1 => {
            let _ = s.shutdown(Shutdown::Write);
            let _ = s.read(&mut tmp);
            "half-close"
        }
        2 => {
            let _ = s.read(&mut tmp);
            crate::sys::set_linger0(s.as_raw_fd());
            "read some, reset"
        }
        3 => {
            let _ = s.write_all(&disconnect());
            "DISCONNECT"
        }
        4 => {
            // unread data makes this a reset, too
            "close"
        }
        _ => {
            while let Ok(n) = s.read(&mut tmp) {
                if n == 0 {
                    break;
                }
            }
            "read all, close"
        }
    })
}

/// Every short combination of peculiar levels, as filter to subscribe and unsubscribe (held or not) and
/// as topic to publish
fn shapes(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    const LEVELS: &[&str] = &["", "$share", "$SYS", "$", "+", "#", "g", "+a", "a#", "\u{65e5}", "$share+", " "];
    let addr = w.broker(&Opts::default())?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let canary = Client::connect(addr, &Connect::new(&format!("shc{}", r)), &so)?;
    canary.sub(&[("canary/shape", 2)])?;
    let mut all: Vec<String> = vec![];
    for a in LEVELS {
        all.push(a.to_string());
        for b in LEVELS {
            all.push(format!("{}/{}", a, b));
            for c in LEVELS {
                all.push(format!("{}/{}/{}", a, b, c));
            }
        }
    }
    for _ in 0..300 {
        all.push((0..rng.range(4, 7)).map(|_| *rng.pick(LEVELS)).collect::<Vec<_>>().join("/"));
    }
    rng.shuffle(&mut all);
    for (k, part) in all.chunks(40).enumerate() {
        let c = Client::connect(addr, &Connect::new(&format!("sh{}-{}", r, k)), &so)?;
        for f in part {
            let mut b = vec![];
            let legal = !f.is_empty() && !f.contains(['+', '#']);
            for step in 0..6 {
                let x = match step {
                    0 => unsubscribe(9, &[f]),
                    1 | 4 if legal => publish(f.as_bytes(), b"shape", step / 2, 7, false, false),
                    2 => subscribe(8, &[(f, rng.below(3) as u8)]),
                    3 => unsubscribe(10, &[f]),
                    5 => subscribe(11, &[(f, 0)]),
                    _ => vec![],
                };
                b.extend(x);
            }
            let _ = c.try_send(&b);
            ctx.eval(Some(hash(f.as_bytes())));
            ctx.count("topic_shapes", 1);
        }
        // it may lose its connection over some of them; the others may not notice
        let _ = c.try_send(&pingreq());
        let _ = c.wait(Duration::from_secs(10), |s| (s.closed.is_some() || s.answers.iter().any(|e| e.pkt == SPkt::PingResp)).then_some(()));
        let body = format!("{}", k).into_bytes();
        canary.publish("canary/shape", &body, 2).and_then(|_| canary.messages_until(&body)).map_err(|f| f.ctx(&format!("after topics and filters {:?}", part)))?;
        canary.settle(0)?;
    }
    let b = w.broker.as_mut().unwrap();
    if let Some(m) = b.reports().first() {
        return Err(Fail::V(format!("the broker reported:\n{}", m)));
    }
    b.check_alive()
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 12 >= 10 {
        w.restart();
    }
    let pre = (r % 12 == 11).then_some((2000, 300));
    let addr = w.broker(&Opts { preempt: pre, ..Default::default() })?.addr;
    let tag = format!("{:016x}", rng.next());
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let s = Client::connect(addr, &Connect::new(&format!("cs{}", tag)), &so)?;
    let p = Client::connect(addr, &Connect::new(&format!("cp{}", tag)), &so)?;
    let t1 = format!("canary/{}/1", tag);
    let t2 = format!("canary/{}/2", tag);
    s.sub(&[(t1.clone(), 2), (format!("canary/{}/+", tag), 0)])?;
    s.sub(&[(t2.clone(), 1)])?;
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let mine: Mutex<Vec<(&'static str, &'static str, Vec<u8>)>> = Mutex::new(vec![]);
    let mut res = Ok(());
    std::thread::scope(|sc| {
        for i in 0..3 {
            let mut rng = Rng::new(rng.next(), i);
            let (stop, fail, mine, tag) = (&stop, &fail, &mine, &tag);
            sc.spawn(move || {
                for k in 0..rng.range(8, 25) {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let id = if rng.pct(70) { format!("x{}-{}-{}", tag, i, k) } else { format!("x{}", rng.below(3)) };
                    let (kind, b) = stream(&mut rng, &id);
                    match attack(&mut rng, addr, &b) {
                        Ok(end) => {
                            ctx.eval(Some(hash(&b) ^ hash(end.as_bytes())));
                            ctx.count(&format!("stream_{}", kind.replace(' ', "_")), 1);
                            ctx.count(&format!("end_{}", end.replace(", ", "_").replace(' ', "_")), 1);
                            ctx.count("hostile_bytes", b.len() as u64);
                            mine.lock().unwrap().push((kind, end, b));
                        }
                        Err(f) => {
                            fail.lock().unwrap().get_or_insert(f);
                            stop.store(true, SeqCst);
                        }
                    }
                }
            });
        }
        res = (|| -> Res<()> {
            // the canaries, all the while
            for n in 0..40u32 {
                if stop.load(SeqCst) {
                    break;
                }
                let (t, max) = if n % 2 == 0 { (&t1, 2) } else { (&t2, 1) };
                let q = (n % 3) as u8;
                let body = format!("{} {}", tag, n).into_bytes();
                p.publish(t, &body, q)?;
                let m = s.message().map_err(|f| f.ctx(&format!("canary message {}", n)))?;
                let m = m.msg();
                if m.payload != body || m.topic != t.as_bytes() || m.qos != q.min(max) || m.dup || m.retain {
                    return s.bad(format!("canary message {} at QoS {} on {} arrived as {}", n, q, t, m.brief()));
                }
                p.settle(0)?;
                if n % 5 == 4 {
                    let c = Client::simple(addr, &format!("cn{}-{}", tag, n))?;
                    let f = format!("canary/{}/new{}", tag, n);
                    c.sub(&[(f.clone(), 1)])?;
                    p.publish(&f, &body, 1)?;
                    let m = c.message()?;
                    if m.msg().payload != body {
                        return c.bad(format!("a new client received {}", m.msg().brief()));
                    }
                    p.settle(0)?;
                    // the + filter sees it as well
                    let m = s.message()?;
                    if m.msg().payload != body || m.msg().qos != 0 {
                        return s.bad(format!("instead of {} came {}", show(&body), m.msg().brief()));
                    }
                    c.unsub(&[f.clone()])?;
                    c.send(&disconnect())?;
                    c.expect_closed(WAIT)?;
                    ctx.count("new_clients_served", 1);
                }
                ctx.count("canary_messages", 1);
                std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
            }
            s.ping()?;
            p.ping()?;
            if let Some(e) = s.take_msgs().first() {
                return s.bad(format!("the canary received one message too many: {}", e.msg().brief()));
            }
            Ok(())
        })();
        if res.is_err() {
            stop.store(true, SeqCst);
        }
    });
    let res = res.and(match fail.into_inner().unwrap() {
        Some(f) => Err(f),
        None => Ok(()),
    });
    let b = w.broker.as_mut().unwrap();
    let said = b.reports();
    let alive = b.check_alive();
    let res = if let Some(m) = said.first() { Err(Fail::V(format!("the broker reported:\n{}", m))) } else { alive.and(res) };
    res.map_err(|f| {
        let v = mine.lock().unwrap();
        let last: Vec<String> = v
            .iter()
            .map(|(k, e, b)| format!("{} ({}, {} bytes): {}", k, e, b.len(), b.iter().take(4000).map(|x| format!("{:02x}", x)).collect::<String>()))
            .collect();
        f.ctx(&format!("hostile streams of this round:\n{}\n", last.join("\n")))
    })?;
    if r < 3 {
        ctx.sample(|| mine.lock().unwrap().iter().take(2).map(|(k, e, b)| format!("{}, ended by {}: {}", k, e, hex(&b[..b.len().min(100)]))).collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one hostile connection (random bytes, mutated, truncated, over-long, over-deep, out-of-order or
         repeated packets) ended in one of six ways, while a canary publisher and subscriber exchange numbered
         messages at all QoS levels that have to arrive exactly, new clients keep being served, and the broker's
         standard error is watched for panics; and every combination of up to three peculiar topic levels subscribed,
         unsubscribed and published. Distinct by bytes and end.",
    );
    ctx.assume("hostile clients do not know the canaries' random identifiers and topics");
    rounds(ctx, 5, ctx.secs(20, 420), 10, |ctx, w, r, rng| if r % 200 == 0 { shapes(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

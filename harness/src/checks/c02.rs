//! One intact copy of each message for each matching connection.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::collections::HashMap;

pub const EDGES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 100, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256,
    1000, 4095, 4096, 4097, 8180, 8190, 8191, 8192, 8193, 8200, 16300, 16370, 16371, 16372, 16373, 16374, 16375, 16376, 16377, 16378,
    16379, 16380, 16381, 16382, 16383, 16384, 16385, 32767, 32768, 65530, 65535, 65536, 65537, 131072,
];
pub const HUGE: &[usize] = &[262144, 1048575, 1048576, 2097130, 2097140, 2097145, 2097150, 2097151, 2097152, 2097153, 3145728, 4194304, 6291456];

pub fn payload(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            // looks like packets
            let mut v = vec![];
            while v.len() < n {
                v.extend(publish(b"t/x", b"fake", rng.below(3) as u8, 7, false, false));
                v.extend([0xd0, 0, 0xe0, 0, 0x90, 3, 0, 1, 0x80]);
            }
            v.truncate(n);
            v
        }
        3 => (0..n).map(|i| i as u8).collect(),
        _ => rng.bytes(n),
    }
}

fn topic_name(rng: &mut Rng, i: usize, deep: bool) -> String {
    if deep && rng.pct(60) {
        // three levels or more
        let n = *rng.pick(&[1, 1, 2, 3, 5, 8, 13, 18, 19, 20, 21, 30, 50, 64, 97]);
        return format!("t/{}{}", i, rng.pick(&["/", "/y", "/$y"]).repeat(n));
    }
    let n = match rng.below(12) {
        0 => *rng.pick(&[100usize, 127, 128, 200, 255, 256, 1000, 16383, 16384, 65500, 65535 - 24]),
        _ => rng.below(12),
    };
    format!("t/{}/{}", i, "y".repeat(n))
}

/// More messages on one connection than there are packet identifiers
fn long(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let q = 1 + (r % 2) as u8;
    let s = Client::connect(addr, &Connect::new("long"), &so)?;
    s.sub(&[("l/#", 2)])?;
    let p = Client::connect(addr, &Connect::new("longp"), &so)?;
    let n = 66_000 + rng.below(1000);
    let mut i = 0;
    while i < n {
        let k = 300.min(n - i);
        let mut bytes = vec![];
        for j in i..i + k {
            let pid = p.pid();
            p.sh.m.lock().unwrap().pending.insert(pid, q);
            bytes.extend(publish(b"l/x", format!("{}", j).as_bytes(), q, pid, false, false));
        }
        p.send(&bytes)?;
        for j in i..i + k {
            let e = s.message()?;
            let m = e.msg();
            if m.payload != format!("{}", j).as_bytes() || m.topic != b"l/x" || m.dup || m.retain {
                return s.bad(format!("message {} of one connection at QoS {} came as {}", j, q, m.brief()));
            }
        }
        p.settle(0)?;
        i += k;
    }
    ctx.max("most_messages_on_one_connection", n as u64);
    s.ping()?;
    ctx.eval(Some(hash(format!("long {} {}", n, q).as_bytes())));
    w.restart();
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 200 == 1 {
        return super::crowd::crowd(ctx, w, r, rng);
    }
    if r % 200 == 2 || r % 200 == 3 {
        return long(ctx, w, r, rng);
    }
    if r % 16 == 15 || r == 0 {
        w.restart();
    }
    let tiny = r % 2 == 1;
    let o = Opts { sndbuf: tiny.then_some(2304), short: (r % 4 == 1).then_some(200), ..Default::default() };
    if w.broker.is_some() && w.fresh != tiny {
        w.restart();
    }
    let addr = w.broker(&o)?.addr;
    w.fresh = tiny;
    let ns = rng.range(1, 4);
    let mut subs: Vec<(Client, usize)> = vec![];
    // topics of many levels, and the filters that match those too
    let deep = r % 3 == 0;
    let deepest = format!("t/+{}", "/+".repeat(20));
    for i in 0..ns {
        let so = SockOpts {
            auto_ack: true,
            auto_pub: true,
            rcvbuf: (tiny && rng.pct(40)).then(|| *rng.pick(&[2304, 8192, 65536])),
            chunk: rng.pct(25).then(|| rng.range(1000, 90000) / if tiny { 10 } else { 1 }),
            ..Default::default()
        };
        let c = Client::connect(addr, &Connect::new(&format!("s{}-{}", r, i)), &so)?;
        // how many of its filters match everything
        let pool = ["t/#", "#", "t/+/#", "+/#", "t/+/+/#", "+/+/+/#", "+/+/+", "t/+/+"];
        let pool = if deep { &pool[..6] } else { &pool[..] };
        let k = rng.range(1, pool.len());
        let mut f: Vec<(&str, u8)> = pool.iter().map(|f| (*f, rng.below(3) as u8)).collect();
        rng.shuffle(&mut f);
        f.truncate(k);
        if deep && rng.pct(50) {
            // matches some of the topics, next to the ones that match them all
            f.push((&deepest, 2));
            f.push(("t/+/+", 1));
        }
        if rng.pct(50) {
            c.sub(&f)?;
        } else {
            for x in &f {
                c.sub(&[*x])?;
            }
        }
        // some filters twice
        if rng.pct(40) {
            let x = f[rng.below(k)];
            c.sub(&[x, x])?;
        }
        subs.push((c, k));
    }
    let self_sub = rng.pct(40);
    let p = if self_sub {
        None
    } else {
        Some(Client::connect(addr, &Connect::new(&format!("p{}", r)), &SockOpts { auto_ack: true, auto_pub: true, ..Default::default() })?)
    };
    let p = p.as_ref().unwrap_or(&subs[0].0);
    let mut sent: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    let mut sizes = vec![];
    let budget = if tiny { 300_000 } else { 8 << 20 };
    let mut total = 0;
    for i in 0..rng.range(5, 60) {
        let n = match rng.below(40) {
            0 if !tiny => *rng.pick(HUGE),
            0..=1 => *rng.pick(&HUGE[..4]),
            2..=24 => *rng.pick(EDGES),
            _ => rng.below(3000),
        };
        if total + n > budget {
            continue;
        }
        total += n;
        let t = topic_name(rng, i, deep);
        // aim the whole packet at an exact length now and then
        let n = if rng.pct(30) && n > t.len() + 2 { n - t.len() - 2 } else { n };
        let body = payload(rng, n);
        let qos = rng.below(3) as u8;
        let pid = p.pid();
        if qos > 0 {
            p.sh.m.lock().unwrap().pending.insert(pid, qos);
        }
        let bytes = publish(t.as_bytes(), &body, qos, pid, qos > 0 && rng.pct(30), rng.pct(30));
        p.send(&bytes)?;
        sizes.push(bytes.len());
        sent.insert(t.into_bytes(), body);
        if i % 20 == 19 {
            p.settle(0)?;
        }
    }
    p.settle(0)?;
    let end = format!("end-{}", r);
    p.publish("t/end/x", end.as_bytes(), 0)?;
    for (c, k) in &subs {
        let got = c.messages_until(end.as_bytes())?;
        let mut left: HashMap<&Vec<u8>, ()> = sent.keys().map(|k| (k, ())).collect();
        for e in &got {
            let m = e.msg();
            let Some(want) = sent.get(&m.topic) else {
                return c.bad(format!("received a message on a topic nobody published on: {}", m.brief()));
            };
            if *want != m.payload {
                let at = want.iter().zip(&m.payload).position(|(a, b)| a != b);
                return c.bad(format!(
                    "payload of {} changed: {} bytes published, {} received, first difference at {:?}",
                    show(&m.topic),
                    want.len(),
                    m.payload.len(),
                    at
                ));
            }
            if m.dup || m.retain {
                return c.bad(format!("DUP or RETAIN set on a forwarded message: {}", m.brief()));
            }
            if left.remove(&m.topic).is_none() {
                return c.bad(format!("received twice: {} ({} of its filters match)", m.brief(), k));
            }
            ctx.eval(Some(hash(&m.topic) ^ (m.payload.len() as u64) << 8 ^ (*k as u64) << 60 ^ m.qos as u64));
            ctx.count("payload_bytes_compared", m.payload.len() as u64);
            ctx.max("largest_payload", m.payload.len() as u64);
        }
        if let Some((t, _)) = left.iter().next() {
            viol!("client {} did not get the message on {} ({} bytes of payload), {} of {} missing", c.name, show(t), sent[*t].len(), left.len(), sent.len());
        }
        // nothing trails behind
        c.ping()?;
        if let Some(e) = c.take_msgs().first() {
            return c.bad(format!("a message more than expected: {}", e.msg().brief()));
        }
    }
    ctx.sample(|| format!("{} subscribers with {:?} matching filters, self-subscribed publisher {}, packets of {:?} bytes", ns, subs.iter().map(|s| s.1).collect::<Vec<_>>(), self_sub, sizes));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one delivered message compared byte for byte with what was published, one copy per connection.
         Rounds: 1-4 subscribers with 1-8 filters that all match (some twice), publisher among them or not, payload
         sizes from 0 to 6 MiB around the remaining-length and buffer boundaries, topic lengths to 65535, QoS 0-2 with
         DUP and RETAIN set or not, small socket buffers on either side in every second round. Distinct by topic
         length and index, payload length, number of matching filters, QoS.",
    );
    rounds(ctx, 6, ctx.secs(25, 400), 12, round);
}

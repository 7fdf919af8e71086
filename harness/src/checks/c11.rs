//! Malformed and forbidden packets: the connection is closed, and nothing else happens.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};

/// A malformed packet of a client that is connected, by what is wrong with it
pub struct Case {
    pub what: String,
    pub bytes: Vec<u8>,
}

fn strings() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("invalid UTF-8 ff", vec![b'a', 0xff, b'b']),
        ("overlong UTF-8", vec![b'a', 0xc0, 0x80]),
        ("overlong slash", vec![0xe0, 0x80, 0xaf]),
        ("surrogate", vec![b'a', 0xed, 0xa0, 0x80]),
        ("beyond U+10FFFF", vec![0xf4, 0x90, 0x80, 0x80]),
        ("UTF-8 cut short", vec![b'a', 0xe2, 0x82]),
        ("lone continuation", vec![0x80]),
        // as many bytes as U+FFFD, which a lossy decoder puts in their place
        ("four-byte UTF-8 cut after three", vec![b'a', 0xf0, 0x90, 0x80]),
        ("four-byte UTF-8 cut after three inside", vec![0xf1, 0x80, 0x80, b'b']),
        ("U+0000", vec![0]),
        ("U+0000 inside", vec![b'a', 0, b'b']),
        ("U+0000 at the end", vec![b'k', b'/', b'x', 0]),
    ]
}

/// `n` makes marker payloads unique; everything that should not happen would show on topic k/...
pub fn catalogue(rng: &mut Rng, n: u64) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut add = |what: String, bytes: Vec<u8>| v.push(Case { what, bytes });
    let evil = format!("evil{}", n).into_bytes();
    let evil = &evil[..];
    for f in 0..16u8 {
        for (t, name) in [(0u8, "reserved type 0"), (15, "reserved type 15")] {
            add(format!("{} flags {}", name, f), vec![t << 4 | f, 0]);
            add(format!("{} flags {} with a body", name, f), raw(t << 4 | f, b"\0\x03k/xevil"));
        }
        if f != 2 {
            add(format!("SUBSCRIBE flags {}", f), raw(0x80 | f, &subscribe(9, &[("k/sub", 1)])[2..]));
            add(format!("UNSUBSCRIBE flags {}", f), raw(0xa0 | f, &unsubscribe(9, &["keep/#"])[2..]));
            add(format!("PUBREL flags {}", f), raw(0x60 | f, &[0, 9]));
        }
        if f != 0 {
            add(format!("PUBACK flags {}", f), raw(0x40 | f, &[0, 9]));
            add(format!("PUBREC flags {}", f), raw(0x50 | f, &[0, 9]));
            add(format!("PUBCOMP flags {}", f), raw(0x70 | f, &[0, 9]));
            add(format!("PINGREQ flags {}", f), vec![0xc0 | f, 0]);
            add(format!("DISCONNECT flags {}", f), vec![0xe0 | f, 0]);
        }
        if (f >> 1) & 3 == 3 {
            let mut b = vec![];
            put_str(&mut b, b"k/qos3");
            b.extend([0, 9]);
            b.extend(evil);
            add(format!("PUBLISH QoS 3 flags {}", f), raw(0x30 | f, &b));
        }
    }
    add("CONNACK from a client".into(), vec![0x20, 2, 0, 0]);
    add("SUBACK from a client".into(), vec![0x90, 3, 0, 9, 0]);
    add("UNSUBACK from a client".into(), vec![0xb0, 2, 0, 9]);
    add("PINGRESP from a client".into(), vec![0xd0, 0]);
    // remaining length of five bytes and more
    for first in [0x30u8, 0x32, 0x82, 0xa2, 0xc0, 0x40] {
        for tail in [vec![0xff, 0xff, 0xff, 0xff, 0x01], vec![0x80, 0x80, 0x80, 0x80, 0x00], vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0x80, 0x80, 0x80, 0x80, 0x01]] {
            let mut b = vec![first];
            b.extend(&tail);
            b.extend([0, 3, b'k', b'/', b'x']);
            add(format!("remaining length {} on {:#x}", hex(&tail), first), b);
        }
    }
    // remaining length against contents
    for t in [0x40u8, 0x50, 0x62, 0x70] {
        add(format!("{:#x} with remaining length 0", t), raw(t, &[]));
        add(format!("{:#x} with remaining length 1", t), raw(t, &[9]));
        add(format!("{:#x} with remaining length 3", t), raw(t, &[0, 9, 0]));
        add(format!("{:#x} with remaining length 4", t), raw(t, &[0, 9, 0, 9]));
        add(format!("{:#x} with identifier 0", t), raw(t, &[0, 0]));
    }
    add("PINGREQ with a body".into(), raw(0xc0, &[0]));
    add("PINGREQ with two bytes".into(), raw(0xc0, &[0, 1]));
    add("DISCONNECT with a body".into(), raw(0xe0, &[0]));
    add("DISCONNECT with many bytes".into(), raw(0xe0, &[0; 200]));
    // PUBLISH
    let p = |topic: &[u8], q: u8, id: &[u8], body: &[u8]| {
        let mut b = vec![];
        put_str(&mut b, topic);
        b.extend(id);
        b.extend(body);
        raw(0x30 | q << 1, &b)
    };
    for q in 0..3u8 {
        let id: &[u8] = if q > 0 { &[0, 9] } else { &[] };
        add(format!("PUBLISH QoS {} with an empty topic", q), p(b"", q, id, evil));
        for t in ["+", "#", "k/+", "k/#", "+/k", "#/k", "k/+/x", "k+", "k#", "k/x+y", "k//+", "k/x/#"] {
            add(format!("PUBLISH QoS {} to topic {}", q, t), p(t.as_bytes(), q, id, evil));
        }
        for (w, s) in strings() {
            add(format!("PUBLISH QoS {}: {} in the topic", q, w), p(&[b"k/".as_slice(), &s].concat(), q, id, evil));
        }
        if q > 0 {
            add(format!("PUBLISH QoS {} with identifier 0", q), p(b"k/zero", q, &[0, 0], evil));
            add(format!("PUBLISH QoS {} without identifier", q), p(b"k/noid", q, &[], b""));
            add(format!("PUBLISH QoS {} with half an identifier", q), p(b"k/half", q, &[9], b""));
        }
        let b = 0x30 | q << 1;
        add(format!("PUBLISH QoS {} with an empty body", q), raw(b, &[]));
        add(format!("PUBLISH QoS {} with half a topic length", q), raw(b, &[0]));
        add(format!("PUBLISH QoS {} with a topic longer than the packet", q), raw(b, &[0, 8, b'k', b'/', b'x']));
        add(format!("PUBLISH QoS {} with a topic one longer than the packet", q), raw(b, &[0, 4, b'k', b'/', b'x']));
        add(format!("PUBLISH QoS {} with topic length 65535", q), raw(b, &[0xff, 0xff, b'k', b'/', b'x', 0, 9, b'y']));
        // the missing bytes follow, but outside the packet
        let mut x = raw(b, &[0, 6, b'k', b'/', b'x']);
        x.extend(b"abcdefgh");
        add(format!("PUBLISH QoS {} reaching into the next packet", q), x);
    }
    // SUBSCRIBE, UNSUBSCRIBE
    let id = [0u8, 9];
    let id2 = id;
    let f = |s: &[u8], q: Option<u8>| {
        let mut b = vec![];
        put_str(&mut b, s);
        b.extend(q);
        b
    };
    let ok = f(b"k/sub", Some(1));
    let okun = f(b"keep/#", None);
    let mut s = |what: String, parts: &[&[u8]]| add(format!("SUBSCRIBE {}", what), raw(0x82, &parts.concat()));
    s("with an empty body".into(), &[]);
    s("with half an identifier".into(), &[&[9]]);
    s("without filters".into(), &[&id]);
    s("with identifier 0".into(), &[&[0, 0], &ok]);
    s("with half a filter length at the end".into(), &[&id, &ok, &[0]]);
    s("with a filter without QoS".into(), &[&id, &f(b"k/sub", None)]);
    s("with a second filter without QoS".into(), &[&id, &ok, &f(b"k/more", None)]);
    s("with a filter longer than the packet".into(), &[&id, &[0, 200], b"k/sub", &[1]]);
    s("with a second filter longer than the packet".into(), &[&id, &ok, &[0, 9], b"k/sub", &[1]]);
    for q in [3u8, 4, 5, 6, 7, 8, 0x10, 0x20, 0x40, 0x80, 0x81, 0xfc, 0xff] {
        s(format!("with QoS byte {:#x}", q), &[&id, &f(b"k/sub", Some(q))]);
        s(format!("with QoS byte {:#x} in the second place", q), &[&id, &ok, &f(b"k/two", Some(q))]);
    }
    for (w, x) in strings() {
        s(format!("with {}", w), &[&id, &f(&x, Some(1))]);
        s(format!("with {} in the second filter", w), &[&id, &ok, &f(&x, Some(1))]);
        s(format!("with {} in the first filter", w), &[&id, &f(&x, Some(1)), &ok]);
    }
    let mut u = |what: String, parts: &[&[u8]]| add(format!("UNSUBSCRIBE {}", what), raw(0xa2, &parts.concat()));
    u("with an empty body".into(), &[]);
    u("with half an identifier".into(), &[&[9]]);
    u("without filters".into(), &[&id]);
    u("with identifier 0".into(), &[&[0, 0], &okun]);
    u("with half a filter length at the end".into(), &[&id, &okun, &[0]]);
    u("with a trailing byte".into(), &[&id, &okun, &[7]]);
    u("with a filter longer than the packet".into(), &[&id, &[0, 200], b"keep/#"]);
    u("with a second filter longer than the packet".into(), &[&id, &okun, &[0, 9], b"keep"]);
    for (w, x) in strings() {
        u(format!("with {}", w), &[&id, &f(&x, None)]);
        u(format!("with {} in the second filter", w), &[&id, &okun, &f(&x, None)]);
    }
    // the same faults, far into long packets
    let mut add = |what: String, bytes: Vec<u8>| v.push(Case { what, bytes });
    for pad in [130usize, 5000, 17000, 60000] {
        let x = "x".repeat(pad).into_bytes();
        for (w, s) in strings() {
            let q = rng.below(3) as u8;
            let id: &[u8] = if q > 0 { &[0, 9] } else { &[] };
            add(format!("PUBLISH QoS {}: {} behind {} bytes of topic", q, w, pad), p(&[b"k/".as_slice(), &x, &s].concat(), q, id, evil));
            add(format!("PUBLISH QoS {}: {} before {} bytes of topic", q, w, pad), p(&[b"k/".as_slice(), &s, &x].concat(), q, id, evil));
            add(format!("SUBSCRIBE with {} in a filter of {} bytes", w, pad), raw(0x82, &[&id2[..], &ok, &f(&[&x[..], &s].concat(), Some(1))].concat()));
            add(format!("UNSUBSCRIBE with {} in a filter of {} bytes", w, pad), raw(0xa2, &[&id2[..], &okun, &f(&[&x[..], &s].concat(), None)].concat()));
        }
        for t in ["+", "#", "/+", "/#", "/+/x", "+x"] {
            let q = rng.below(3) as u8;
            let id: &[u8] = if q > 0 { &[0, 9] } else { &[] };
            add(format!("PUBLISH QoS {} with {} behind {} bytes of topic", q, t, pad), p(&[b"k/".as_slice(), &x, t.as_bytes()].concat(), q, id, evil));
        }
        let body = [evil, &x].concat();
        for q in 1..3 {
            add(format!("PUBLISH QoS {} with identifier 0 and {} bytes", q, pad), p(b"k/zero", q, &[0, 0], &body));
        }
        for q in 0..3u8 {
            let mut b = vec![0xff, 0xff, b'k', b'/'];
            b.extend(&x);
            add(format!("PUBLISH QoS {} of {} bytes with a longer topic", q, pad), raw(0x30 | q << 1, &b));
        }
        add(format!("PUBLISH QoS 3 of {} bytes", pad), raw(0x36, &[&[0, 3][..], b"k/x", &[0, 9], &body].concat()));
        for first in [0x40u8, 0x50, 0x62, 0x70, 0xc0, 0xe0] {
            add(format!("{:#x} with {} bytes", first, pad), raw(first, &[&[0, 9][..], &x].concat()));
        }
        for first in [0x00u8, 0xf0, 0x20, 0x90, 0xb0, 0xd0] {
            add(format!("{:#x} with {} bytes", first, pad), raw(first, &[&[0, 9][..], &x].concat()));
        }
        add(format!("SUBSCRIBE with identifier 0 and {} bytes", pad), raw(0x82, &[&[0, 0][..], &f(&x, Some(1)), &ok].concat()));
        add(format!("UNSUBSCRIBE with identifier 0 and {} bytes", pad), raw(0xa2, &[&[0, 0][..], &f(&x, None), &okun].concat()));
    }
    for n in [2usize, 8, 15, 16, 17, 40, 300, 3000] {
        let many = ok.repeat(n);
        let manyun = okun.repeat(n);
        for q in [3u8, 4, 8, 0x40, 0x80, 0x81, 0xff] {
            add(format!("SUBSCRIBE with QoS byte {:#x} after {} filters", q, n), raw(0x82, &[&id2[..], &many, &f(b"k/two", Some(q))].concat()));
            add(format!("SUBSCRIBE with QoS byte {:#x} before {} filters", q, n), raw(0x82, &[&id2[..], &f(b"k/two", Some(q)), &many].concat()));
        }
        let (w, x) = rng.pick(&strings()).clone();
        add(format!("SUBSCRIBE with {} after {} filters", w, n), raw(0x82, &[&id2[..], &many, &f(&x, Some(1))].concat()));
        add(format!("UNSUBSCRIBE with {} after {} filters", w, n), raw(0xa2, &[&id2[..], &manyun, &f(&x, None)].concat()));
        add(format!("SUBSCRIBE with a length cut after {} filters", n), raw(0x82, &[&id2[..], &many, &[0]].concat()));
        add(format!("UNSUBSCRIBE with a length cut after {} filters", n), raw(0xa2, &[&id2[..], &manyun, &[0]].concat()));
        add(format!("SUBSCRIBE without the last QoS after {} filters", n), raw(0x82, &[&id2[..], &many, &f(b"k/two", None)].concat()));
        add(format!("UNSUBSCRIBE with a filter cut after {} filters", n), raw(0xa2, &[&id2[..], &manyun, &[0, 9], b"keep"].concat()));
        add(format!("SUBSCRIBE with a filter cut after {} filters", n), raw(0x82, &[&id2[..], &many, &[0, 9], b"k/two"].concat()));
        let mut b = raw(0x82, &[&id2[..], &many].concat());
        b[0] = *rng.pick(&[0x80u8, 0x81, 0x83, 0x84, 0x8a]);
        add(format!("SUBSCRIBE flags {:#x} with {} filters", b[0], n), b);
        let mut b = raw(0xa2, &[&id2[..], &manyun].concat());
        b[0] = *rng.pick(&[0xa0u8, 0xa1, 0xa3, 0xa6, 0xaa]);
        add(format!("UNSUBSCRIBE flags {:#x} with {} filters", b[0], n), b);
    }
    // a second CONNECT is a protocol violation
    add("second CONNECT".into(), Connect::new("again").build());
    let mut w = Connect::new("again2");
    w.will = Some((b"k/will".to_vec(), evil.to_vec(), 0, false));
    add("second CONNECT with a will".into(), w.build());
    rng.shuffle(&mut v);
    v
}

/// A mutant of a legal packet that is no longer legal, as far as the judge can tell
fn mutant(rng: &mut Rng, n: u64) -> Option<Case> {
    let evil = format!("evil{}", n).into_bytes();
    let q = rng.below(3) as u8;
    let base = match rng.below(8) {
        0..=2 => publish(b"k/mut", &evil, q, 9, false, false),
        3 => subscribe(9, &[("k/sub", q), ("k/+/two", 1)]),
        4 => unsubscribe(9, &["keep/#", "k/other"]),
        5 => pubrel(9),
        6 => pubrec(9),
        _ => pingreq(),
    };
    let mut b = base.clone();
    for _ in 0..rng.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let i = rng.below(b.len());
        match rng.below(6) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b[i] = rng.next() as u8,
            2 => b.insert(i, rng.next() as u8),
            3 => {
                b.remove(i);
            }
            4 => b[0] = (b[0] & 0xf0) | rng.below(16) as u8,
            _ => {
                let k = 2.min(b.len() - 1);
                b[k] = *rng.pick(&[0, 1, 0xff, 0x80, 0x7f]);
            }
        }
    }
    // walk over what is still legal; nothing legal may publish on k/ by accident, so only whole
    // streams that are bad from the start count
    match judge(&b) {
        Verdict::Invalid => Some(Case { what: format!("mutant of {}", hex(&base)), bytes: b }),
        _ => None,
    }
}

struct Running {
    c: Client,
    case: Case,
    pre: Vec<u8>,
    has_pre: bool,
    suffix: bool,
    persistent: bool,
    id: String,
}

fn batch(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng, cases: Vec<Case>) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let o = Client::simple(addr, &format!("o{}-{}", r, w.index))?;
    o.sub(&[("k/#", 0), ("pre/#", 0), ("+", 0)])?;
    let helper = Client::simple(addr, &format!("h{}-{}", r, w.index))?;
    let mut run: Vec<Running> = vec![];
    for (i, case) in cases.into_iter().enumerate() {
        let persistent = rng.pct(50);
        let id = format!("v{}-{}-{}", r, w.index, i);
        let c = Client::connect(addr, &Connect::new(&id).clean(!persistent), &SockOpts { ..Default::default() })?;
        if persistent {
            c.sub(&[("keep/#", 1)])?;
        }
        if rng.pct(12) {
            // it owes acknowledgements
            let t = format!("owed/{}", id);
            c.sub(&[(t.as_str(), 2)])?;
            let k = rng.range(1, 12);
            for j in 0..k {
                // the helper's identifiers do not matter at QoS 1
                helper.publish(&t, format!("{}", j).as_bytes(), 1)?;
            }
            for _ in 0..k {
                c.message()?;
                helper.answer()?;
            }
            c.unsub(&[t.as_str()])?;
            ctx.count("clients_that_owe_acknowledgements", 1);
        }
        let pre = format!("pre{}.{}", r, i).into_bytes();
        let has_pre = rng.pct(70);
        let suffix = rng.pct(70);
        let mut bytes = vec![];
        if has_pre {
            bytes.extend(publish(b"pre/x", &pre, 1, 77, false, false));
        }
        let head = bytes.len();
        bytes.extend(&case.bytes);
        if suffix {
            bytes.extend(publish(b"k/after", format!("after{}.{}", r, i).as_bytes(), 0, 0, false, false));
            if rng.pct(30) {
                // a lot behind it, in the same segment
                let mut body = format!("after{}.{}", r, i).into_bytes();
                body.resize(*rng.pick(&[1000usize, 3500, 9000, 40_000]), b' ');
                bytes.extend(publish(b"k/after", &body, 0, 0, false, false).repeat(rng.range(1, 3)));
                bytes.extend(pingreq().repeat(rng.below(5000)));
                ctx.count("followed_by_thousands_of_bytes", 1);
            }
            bytes.extend(subscribe(78, &[("k/after/sub", 1)]));
        }
        if rng.pct(75) {
            let _ = c.try_send(&bytes);
        } else {
            let _ = c.try_send(&bytes[..head]);
            let _ = c.try_send(&bytes[head..]);
        }
        run.push(Running { c, case, pre, has_pre, suffix, persistent, id });
    }
    for x in &run {
        let c = &x.c;
        let what = format!("{} ({})", x.case.what, hex(&x.case.bytes));
        let end = c.expect_closed(WAIT).map_err(|f| f.ctx(&what))?;
        if let Some(m) = c.malformed() {
            return Err(c.fail(format!("{}: {}", what, m)));
        }
        let mut acked = false;
        for a in c.take_answers() {
            match a.pkt {
                SPkt::PubAck(77) if x.has_pre && !acked => acked = true,
                SPkt::ConnAck { code, .. } if code != 0 && x.case.what.starts_with("second CONNECT") => {}
                p => return Err(c.fail(format!("{}: answered with {}", what, p.brief()))),
            }
        }
        if x.has_pre && !acked && !x.suffix && end == End::Eof {
            return Err(c.fail(format!("{}: the complete packet before it was not acknowledged", what)));
        }
        if let Some(e) = c.take_msgs().first() {
            return Err(c.fail(format!("{}: {} was delivered", what, e.msg().brief())));
        }
    }
    helper.publish("k/end", b"end", 0)?;
    let got = o.messages_until(b"end")?;
    let mut pres: Vec<&[u8]> = vec![];
    for e in &got {
        let m = e.msg();
        if run.iter().any(|x| x.has_pre && x.pre == m.payload) {
            pres.push(&m.payload);
            continue;
        }
        let by = run.iter().find(|x| {
            let s = String::from_utf8_lossy(&m.payload).to_string();
            x.c.name.ends_with(&format!("-{}", s.rsplit('.').next().unwrap_or("")))
        });
        return o.bad(format!(
            "a malformed packet, or something after it, was published: {}; perhaps by {:?}; cases: {}",
            m.brief(),
            by.map(|x| x.case.what.clone()),
            run.iter().map(|x| format!("{}: {}", x.case.what, hex(&x.case.bytes))).collect::<Vec<_>>().join(" | ")
        ));
    }
    for x in &run {
        if x.has_pre && !pres.contains(&&x.pre[..]) {
            return x.c.bad(format!("{}: the complete PUBLISH before it had no effect", x.case.what));
        }
    }
    // persistent sessions tell whether subscriptions were touched
    for (i, x) in run.iter().enumerate() {
        if !x.persistent {
            continue;
        }
        let (c, sp) = Client::connect_sp(addr, &Connect::new(&x.id).clean(false), &SockOpts { auto_ack: true, ..Default::default() })?;
        if !sp {
            return c.bad(format!("{}: its session is gone", x.case.what));
        }
        helper.publish("k/sub", b"probe", 0)?;
        helper.publish("k/two", b"probe", 0)?;
        helper.publish("k/x/two", b"probe", 0)?;
        helper.publish("k/after/sub", b"probe", 0)?;
        helper.publish("keep/x", format!("kept{}", i).as_bytes(), 0)?;
        let extra = c.messages_until(format!("kept{}", i).as_bytes()).map_err(|f| f.ctx(&format!("after {} ({}): subscription keep/#", x.case.what, hex(&x.case.bytes))))?;
        if let Some(e) = extra.first() {
            return c.bad(format!("after {} ({}): subscribed, {} arrived", x.case.what, hex(&x.case.bytes), e.msg().brief()));
        }
        c.ping()?;
        // leave nothing behind
        c.send(&disconnect())?;
        c.expect_closed(WAIT)?;
        let c = Client::connect(addr, &Connect::new(&x.id), &SockOpts::default())?;
        c.send(&disconnect())?;
        ctx.count("session_effects_checked", 1);
    }
    for x in &run {
        ctx.eval(Some(hash(&x.case.bytes) ^ (x.has_pre as u64) << 1 ^ (x.suffix as u64) << 2 ^ (x.persistent as u64) << 3));
    }
    if let Some(x) = run.first() {
        ctx.sample(|| format!("{}: {}", x.case.what, hex(&x.case.bytes)));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one malformed or forbidden packet on a connection of its own, with or without a legal PUBLISH
         before it and further packets (up to 130 kB) behind it: the connection has to be closed, without an answer to it; an observer
         must see the PUBLISH before and nothing of the packet or behind it; half of the clients have persistent
         sessions whose subscriptions are probed afterwards. Cases: the whole catalogue (types, flags, lengths,
         strings, identifiers, topics, filters) in every run, then mutants of legal packets that an independent strict
         decoder calls illegal. Distinct by bytes and surroundings.",
    );
    ctx.assume("mutants whose legality is disputable (non-minimal lengths, DUP at QoS 0, more than 100 levels) are left out");
    let all: std::sync::Mutex<Vec<Case>> = std::sync::Mutex::new(catalogue(&mut Rng::new(ctx.seed, 999_999), 0));
    ctx.count("catalogue", all.lock().unwrap().len() as u64);
    rounds(ctx, 6, ctx.secs(20, 300), 30, |ctx, w, r, rng| {
        if r % 20 == 19 {
            w.restart();
        }
        let mut v = vec![];
        {
            let mut a = all.lock().unwrap();
            for _ in 0..30 {
                v.extend(a.pop());
            }
            if a.is_empty() && r % 4 == 0 {
                *a = catalogue(rng, r);
                ctx.count("catalogue_repeats", 1);
            }
        }
        for _ in 0..3000 {
            if v.len() >= 40 {
                break;
            }
            v.extend(mutant(rng, r));
        }
        batch(ctx, w, r, rng, v)
    });
}

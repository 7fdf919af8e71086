//! Well-formed packets never cost a client its connection.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};

pub fn text(rng: &mut Rng, max: usize) -> String {
    let want = match rng.below(10) {
        0 => max,
        1 => max.saturating_sub(1),
        2 => max / 2,
        3 => rng.below(max + 1),
        _ => rng.below(40.min(max) + 1),
    };
    let mut s = String::new();
    while s.len() < want {
        let c = match rng.below(9) {
            0 => '\u{1}',
            1 => '\u{7f}',
            2 => '\u{fffd}',
            3 => '\u{feff}',
            4 => char::from_u32(rng.range(0x1_0000, 0x10_fffd) as u32).unwrap_or('x'),
            5 => char::from_u32(rng.range(0x80, 0xd7ff) as u32).unwrap_or('x'),
            6 => ' ',
            _ => (b'!' + rng.below(90) as u8) as char,
        };
        let c = if want > 3000 && rng.pct(95) { 'a' } else { c };
        if s.len() + c.len_utf8() <= want {
            s.push(c);
        } else {
            s.push('a');
        }
    }
    s
}

fn topic(rng: &mut Rng, max: usize) -> String {
    let t: String = text(rng, max).chars().map(|c| if c == '+' || c == '#' { 'a' } else { c }).collect();
    let t = if t.is_empty() { "a".into() } else { t };
    if t.starts_with("$share") {
        "b".to_string() + &t[1..]
    } else {
        t
    }
}

pub fn legal_connect(rng: &mut Rng, id: &str) -> Connect {
    let mut c = Connect::new(id);
    c.clean = rng.pct(70);
    c.keepalive = *rng.pick(&[0u16, 60, 255, 256, 3600, 65535]);
    let max = if rng.pct(10) { 65535 } else { 100 };
    if rng.pct(6) {
        // as long as a CONNECT can be
        c.id = format!("{}-{}", id, "i".repeat(65534 - id.len().min(65534))).into_bytes();
        c.id.truncate(65535);
        c.will = Some((format!("w/{}", "t".repeat(65533)).into_bytes(), rng.bytes(65535), rng.below(3) as u8, rng.pct(50)));
        c.user = Some("u".repeat(65535).into_bytes());
        c.pass = Some(rng.bytes(65535));
        return c;
    }
    if rng.pct(50) {
        let n = if rng.pct(10) { 65535 } else { rng.below(300) };
        c.will = Some((topic(rng, max).into_bytes(), rng.bytes(n), rng.below(3) as u8, rng.pct(50)));
    }
    if rng.pct(60) {
        c.user = Some(text(rng, max).into_bytes());
        if rng.pct(60) {
            let n = if rng.pct(10) { 65535 } else { rng.below(100) };
            c.pass = Some(rng.bytes(n));
        }
    }
    c
}

fn client_id(rng: &mut Rng, r: u64) -> String {
    let base = format!("{}-", r);
    match rng.below(12) {
        0 => base.clone() + &text(rng, 65535 - base.len()),
        1 => base + &"x".repeat(18),
        2 => base + "zwölf ✓",
        3 => base.clone() + &text(rng, 300),
        _ => base + &format!("{:x}", rng.next()),
    }
}

fn bad_filter(rng: &mut Rng) -> String {
    rng.pick(&["", "a/#/b", "a#", "#a", "a+", "+a/b", "a/b+", "##", "+#", "++", "#/", "/#/", "x/y#/z", "é+"]).to_string()
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 20 == 19 {
        w.restart();
    }
    let addr = w.broker(&Opts::default())?.addr;
    let helper = Client::simple(addr, &format!("h{}-{}", r, w.index))?;
    let id = client_id(rng, r);
    let con = legal_connect(rng, &id);
    let c = Client::open(addr, &format!("c{}", r), &SockOpts { auto_ack: true, ..Default::default() })?;
    c.send(&con.build())?;
    let desc = format!("id of {} bytes, flags {:#x}, keep-alive {}, will {:?}", id.len(), con.computed_flags(), con.keepalive, con.will.as_ref().map(|w| (w.0.len(), w.1.len())));
    c.expect_connack().map_err(|f| f.ctx(&desc))?;
    ctx.eval(Some(hash(desc.as_bytes())));
    c.sub(&[("!end", 0)])?;
    let mut hist = vec![];
    for step in 0..rng.range(5, 25) {
        let id = if rng.pct(40) { *rng.pick(&[1u16, 255, 256, 32768, 65534, 65535]) } else { rng.range(1, 65535) as u16 };
        let long = if rng.pct(12) { 65535 } else { 200 };
        let what: String;
        match rng.below(10) {
            0 | 1 => {
                // many filters, some to be refused; the others have to work
                let n = match rng.below(12) {
                    0 => 3000,
                    1 => 500,
                    _ => rng.range(1, 12),
                };
                let mut f: Vec<(String, u8)> = vec![];
                let mut want = vec![];
                let mut live = vec![];
                for i in 0..n {
                    let q = rng.below(3) as u8;
                    match rng.below(if n > 100 { 40 } else { 8 }) {
                        0 => {
                            f.push((bad_filter(rng), q));
                            want.push(Some(0x80));
                        }
                        1 => {
                            // deeper than any limit may allow: granted or refused, but nothing worse
                            let d = *rng.pick(&[150usize, 199, 200, 201, 250, 1000, 5000, 65535]);
                            f.push((if rng.pct(50) { "/".repeat(d) } else { "+/".repeat((d - 1) / 2) + "+" }, q));
                            want.push(None);
                        }
                        2 if n < 100 => {
                            f.push((format!("u/{}", topic(rng, long - 2)), q));
                            want.push(Some(q));
                        }
                        _ => {
                            let mut t = format!("f/{}/{}/{}", r, step, i);
                            let mut fl = t.clone();
                            if rng.pct(15) {
                                // up to a hundred levels, wildcards among them, and strange beginnings
                                let d = *rng.pick(&[1usize, 3, 10, 24, 25, 32, 64, 90, 92]);
                                t = format!("{}{}", rng.pick(&["", "", "/", "$SYS/", "$x/", "$share-no/", "//"]), t);
                                fl = t.clone();
                                for _ in 0..d {
                                    let l = *rng.pick(&["", "x", "yy", "é", "$"]);
                                    t += "/";
                                    t += l;
                                    fl += if rng.pct(60) { "/+" } else { "/" };
                                    if !fl.ends_with('+') {
                                        fl += l;
                                    }
                                }
                                if rng.pct(20) {
                                    fl += "/#";
                                }
                            }
                            live.push(t);
                            f.push((fl, q));
                            want.push(Some(q));
                        }
                    }
                }
                what = format!("SUBSCRIBE with {} filters, {} to be refused", n, want.iter().filter(|w| **w == Some(0x80)).count());
                let total: usize = f.iter().map(|x| x.0.len()).sum();
                if total > 20_000_000 {
                    continue;
                }
                let b = subscribe(id, &f);
                c.send(&b)?;
                let a = c.answer().map_err(|x| x.ctx(&what))?;
                match &a.pkt {
                    SPkt::SubAck(i, codes) if *i == id && codes.len() == n => {
                        for k in 0..n {
                            let fine = match want[k] {
                                Some(x) => codes[k] == x,
                                None => codes[k] == 0x80 || codes[k] == f[k].1,
                            };
                            if !fine {
                                return c.bad(format!("{}: filter {} ({} levels) answered {:#x}", what, show(f[k].0.as_bytes()), f[k].0.split('/').count(), codes[k]));
                            }
                        }
                    }
                    p => return c.bad(format!("{}: expected SUBACK({}) with {} codes, got {}", what, id, n, p.brief())),
                }
                rng.shuffle(&mut live);
                for t in live.iter().take(5) {
                    helper.publish(t, b"live", 0)?;
                }
                let end = format!("end{}", step);
                helper.publish("!end", end.as_bytes(), 0)?;
                let got = c.messages_until(end.as_bytes())?;
                let n = got.iter().filter(|e| e.msg().payload == b"live").count();
                if n < live.len().min(5) {
                    return c.bad(format!("{}: only {} of {} granted filters work", what, n, live.len().min(5)));
                }
                // make the next rounds independent
                let drop: Vec<&String> = f.iter().map(|x| &x.0).filter(|x| filter_ok(x.as_bytes()) == Some(true)).collect();
                for d in drop.chunks(500) {
                    c.unsub(d)?;
                }
            }
            2 => {
                let n = if rng.pct(10) { 2000 } else { rng.range(1, 8) };
                let f: Vec<String> = (0..n).map(|_| topic(rng, if n > 100 { 30 } else { long })).collect();
                what = format!("UNSUBSCRIBE with {} filters not held", n);
                c.send(&unsubscribe(id, &f))?;
                match c.answer().map_err(|x| x.ctx(&what))?.pkt {
                    SPkt::UnsubAck(i) if i == id => {}
                    p => return c.bad(format!("{}: {}", what, p.brief())),
                }
            }
            3..=5 => {
                let q = rng.below(3) as u8;
                let t = topic(rng, long);
                let n = *rng.pick(&[0usize, 0, 1, 10, 1000, 70000]);
                let (dup, retain) = (q > 0 && rng.pct(50), rng.pct(50));
                what = format!("PUBLISH QoS {} id {} dup {} retain {} topic of {} bytes, payload of {}", q, id, dup, retain, t.len(), n);
                c.send(&publish(t.as_bytes(), &rng.bytes(n), q, id, dup, retain))?;
                let want = match q {
                    0 => None,
                    1 => Some(SPkt::PubAck(id)),
                    _ => Some(SPkt::PubRec(id)),
                };
                if let Some(wa) = want {
                    let a = c.answer().map_err(|x| x.ctx(&what))?.pkt;
                    if a != wa {
                        return c.bad(format!("{}: {}", what, a.brief()));
                    }
                }
                if q == 2 {
                    c.send(&pubrel(id))?;
                    let a = c.answer().map_err(|x| x.ctx(&what))?.pkt;
                    if a != SPkt::PubComp(id) {
                        return c.bad(format!("{} and PUBREL: {}", what, a.brief()));
                    }
                }
            }
            6 => {
                what = format!("PUBACK, PUBCOMP for unknown identifier {}", id);
                c.send(&[puback(id), pubcomp(id)].concat())?;
            }
            7 => {
                what = format!("PUBREC for unknown identifier {}", id);
                c.send(&pubrec(id))?;
                // the handshakes' automatic part takes PUBREL away; it answers PUBCOMP, also legal
            }
            8 => {
                what = format!("PUBREL for unknown identifier {}", id);
                c.send(&pubrel(id))?;
                let a = c.answer().map_err(|x| x.ctx(&what))?.pkt;
                if a != SPkt::PubComp(id) {
                    return c.bad(format!("{}: {}", what, a.brief()));
                }
            }
            _ => {
                what = "PINGREQ x20".into();
                c.send(&pingreq().repeat(20))?;
                for _ in 0..20 {
                    let a = c.answer().map_err(|x| x.ctx(&what))?.pkt;
                    if a != SPkt::PingResp {
                        return c.bad(format!("{}: {}", what, a.brief()));
                    }
                }
            }
        }
        c.ping().map_err(|f| f.ctx(&what))?;
        ctx.eval(Some(hash(what.as_bytes())));
        hist.push(what);
    }
    ctx.sample(|| format!("{}; {}", desc, hist.join("; ")));
    c.send(&disconnect())?;
    c.expect_closed(WAIT)?;
    if !con.clean {
        // do not let sessions pile up
        let x = Client::open(addr, "x", &SockOpts::default())?;
        x.send(&Connect { clean: true, will: None, user: None, pass: None, ..con }.build())?;
        x.expect_connack()?;
    }
    Ok(())
}

/// Acknowledgements in any order, for what is in flight and for what is not
fn acks(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::connect(addr, &Connect::new(&format!("a{}-{}", r, w.index)), &SockOpts::default())?;
    let t = format!("acks/{}-{}", r, w.index);
    c.sub(&[(&t, 2)])?;
    let p = Client::connect(addr, &Connect::new(&format!("ap{}-{}", r, w.index)), &SockOpts { auto_pub: true, ..Default::default() })?;
    let mut flying: Vec<(u16, u8)> = vec![];
    for step in 0..rng.range(3, 10) {
        let n = rng.range(1, 60);
        for i in 0..n {
            p.publish(&t, format!("{}.{}", step, i).as_bytes(), 1 + rng.below(2) as u8)?;
        }
        p.settle(0)?;
        for _ in 0..n {
            let e = c.message()?;
            flying.push((e.msg().pid, e.msg().qos));
        }
        let what = format!("acknowledgements with {} deliveries in flight", flying.len());
        let mut bytes = vec![];
        let mut want = vec![];
        for _ in 0..rng.range(1, 80) {
            let stranger = loop {
                let id = rng.range(1, 65535) as u16;
                if !flying.iter().any(|f| f.0 == id) {
                    break id;
                }
            };
            match rng.below(6) {
                0 => bytes.extend(puback(stranger)),
                1 => bytes.extend(pubcomp(stranger)),
                2 => {
                    bytes.extend(pubrec(stranger));
                    want.push(SPkt::PubRel(stranger));
                }
                3 => {
                    bytes.extend(pubrel(stranger));
                    want.push(SPkt::PubComp(stranger));
                }
                _ if !flying.is_empty() => {
                    let k = rng.below(flying.len());
                    let (id, q) = flying.swap_remove(k);
                    if q == 1 {
                        // once too often, too
                        bytes.extend(puback(id).repeat(rng.range(1, 2)));
                    } else {
                        let times = rng.range(1, 2);
                        bytes.extend(pubrec(id).repeat(times));
                        want.extend(vec![SPkt::PubRel(id); times]);
                        bytes.extend(pubcomp(id).repeat(rng.range(1, 2)));
                    }
                }
                _ => {}
            }
        }
        bytes.extend(pingreq());
        want.push(SPkt::PingResp);
        c.send(&bytes)?;
        for x in want {
            let a = c.answer().map_err(|f| f.ctx(&what))?.pkt;
            if a != x {
                return c.bad(format!("{}: expected {}, got {}", what, x.brief(), a.brief()));
            }
        }
        ctx.eval(Some(hash(&bytes)));
        ctx.max("most_deliveries_in_flight", flying.len() as u64);
    }
    ctx.count("acknowledgement_histories", 1);
    Ok(())
}

/// Every identifier in the acknowledgements nobody asked for
fn sweep(ctx: &Ctx, w: &mut Worker, r: u64) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let c = Client::connect(addr, &Connect::new(&format!("sweep{}", r)), &SockOpts::default())?;
    for part in (1..=65535u16).collect::<Vec<_>>().chunks(5000) {
        let mut b = vec![];
        for &id in part {
            b.extend(puback(id));
            b.extend(pubcomp(id));
            b.extend(pubrec(id));
        }
        c.send(&b)?;
        for &id in part {
            let a = c.answer()?.pkt;
            if a != SPkt::PubRel(id) {
                return c.bad(format!("PUBREC({}) answered by {}", id, a.brief()));
            }
            ctx.eval(Some(1 << 33 | id as u64));
        }
        c.ping()?;
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one legal packet (or small group) followed by PINGREQ, all answers as specified and the connection
         still open. Packets at the extremes: CONNECT with every combination of options, identifiers, user names and
         wills up to 65535 bytes of any UTF-8, binary passwords and will messages; SUBSCRIBE with up to 3000 filters,
         invalid and very deep ones among them (granted ones are probed); topics to 65535 bytes, DUP and RETAIN,
         empty payloads, filters of up to a hundred levels (probed), acknowledgements for all 65535 unknown
         identifiers, and histories of acknowledgements for deliveries in flight mixed with unknown and repeated ones. Distinct by description.",
    );
    rounds(ctx, 8, ctx.secs(20, 300), 40, |ctx, w, r, rng| if r == 0 { sweep(ctx, w, r) } else if r % 9 == 5 { acks(ctx, w, r, rng) } else { round(ctx, w, r, rng) });
}

//! CONNECT comes first, once, and is judged.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};

#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// CONNACK with session-present 0 and this code first; 0 stays open
    Code(u8),
    /// closed without being accepted
    Refused,
    /// closed with no answer at all
    Silent,
}

struct Case {
    what: String,
    bytes: Vec<u8>,
    want: Want,
}

fn cases(rng: &mut Rng, n: u64) -> Vec<Case> {
    let mut v = vec![];
    let mut k = 0;
    let mut id = || {
        k += 1;
        format!("i{}-{}", n, k)
    };
    // anything else first
    for (what, b) in [
        ("PUBLISH QoS 0", publish(b"evil/x", b"evil", 0, 0, false, false)),
        ("PUBLISH QoS 1", publish(b"evil/x", b"evil", 1, 5, false, false)),
        ("PUBLISH QoS 2", publish(b"evil/x", b"evil", 2, 5, false, true)),
        ("SUBSCRIBE", subscribe(5, &[("evil/#", 1)])),
        ("UNSUBSCRIBE", unsubscribe(5, &["a"])),
        ("PINGREQ", pingreq()),
        ("DISCONNECT", disconnect()),
        ("PUBACK", puback(1)),
        ("PUBREC", pubrec(1)),
        ("PUBREL", pubrel(1)),
        ("PUBCOMP", pubcomp(1)),
        ("CONNACK", vec![0x20, 2, 0, 0]),
        ("SUBACK", vec![0x90, 3, 0, 1, 0]),
        ("UNSUBACK", vec![0xb0, 2, 0, 1]),
        ("PINGRESP", vec![0xd0, 0]),
        ("type 0", vec![0, 0]),
        ("type 15", vec![0xf0, 0]),
        ("HTTP", b"GET /a-path HTTP/1.1\r\nHost: broker.example\r\nUser-Agent: something/1.0\r\nAccept: */*\r\n\r\n".to_vec()),
    ] {
        v.push(Case { what: format!("{} first", what), bytes: b.clone(), want: Want::Silent });
        // a CONNECT afterwards comes too late
        let mut late = b;
        late.extend(Connect::new(&id()).build());
        late.extend(publish(b"evil/x", b"evil", 0, 0, false, false));
        v.push(Case { what: format!("{} and then CONNECT", what), bytes: late, want: Want::Silent });
    }
    // all connect flags, with the payload fields they announce
    for f in 0..=255u8 {
        let will = f & 4 != 0;
        let legal = f & 1 == 0
            && (f >> 3) & 3 != 3
            && (will || f & 0x38 == 0)
            && (f & 0x80 != 0 || f & 0x40 == 0);
        let mut c = Connect::new(&id());
        c.flags = Some(f);
        if will {
            c.will = Some((b"evil/will".to_vec(), b"w".to_vec(), 0, false));
        }
        if f & 0x80 != 0 {
            c.user = Some(b"u".to_vec());
        }
        if f & 0x40 != 0 {
            c.pass = Some(b"p".to_vec());
        }
        v.push(Case { what: format!("connect flags {:#010b}", f), bytes: c.build(), want: if legal { Want::Code(0) } else { Want::Refused } });
    }
    for l in 0..=255u8 {
        if l != 4 {
            let mut c = Connect::new(&id());
            c.level = l;
            v.push(Case { what: format!("protocol level {}", l), bytes: c.build(), want: Want::Code(1) });
        }
    }
    for p in ["", "MQT", "MQTTT", "mqtt", "MQIsdp", "MQisdp", "Mqtt", "MQTT ", "XXXX", "HTTP", "MQTT\u{1}", "ＭＱＴＴ"] {
        let mut c = Connect::new(&id());
        c.proto = p.as_bytes().to_vec();
        v.push(Case { what: format!("protocol name {:?}", p), bytes: c.build(), want: Want::Refused });
        c.level = 3;
        v.push(Case { what: format!("protocol name {:?} level 3", p), bytes: c.build(), want: Want::Refused });
    }
    for x in [vec![0xff, 0xfe, 0xfd, 0xfc], vec![b'M', b'Q', 0, b'T']] {
        let mut c = Connect::new(&id());
        c.proto = x;
        v.push(Case { what: "protocol name that is not text".into(), bytes: c.build(), want: Want::Refused });
    }
    // client identifiers
    v.push(Case { what: "empty identifier, clean".into(), bytes: Connect::new("").build(), want: Want::Code(0) });
    v.push(Case { what: "empty identifier, not clean".into(), bytes: Connect::new("").clean(false).build(), want: Want::Code(2) });
    let mut c = Connect::new("").clean(false);
    c.user = Some(b"u".to_vec());
    c.keepalive = 30;
    v.push(Case { what: "empty identifier, not clean, with user".into(), bytes: c.build(), want: Want::Code(2) });
    for x in [vec![0xff], vec![b'a', 0], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf0, 0x90, 0x80], vec![0xf1, 0x80, 0x80, b'b']] {
        let mut c = Connect::new("");
        c.id = x;
        v.push(Case { what: format!("identifier {}", hex(&c.id)), bytes: c.build(), want: Want::Refused });
    }
    // contents against lengths
    let mut full = Connect::new(&id());
    full.will = Some((b"evil/will".to_vec(), b"w".to_vec(), 1, false));
    full.user = Some(b"user".to_vec());
    full.pass = Some(b"pass".to_vec());
    let body = full.body();
    for n in 0..body.len() {
        v.push(Case { what: format!("CONNECT of {} bytes cut to {}", body.len(), n), bytes: raw(0x10, &body[..n]), want: Want::Refused });
    }
    v.push(Case { what: "whole CONNECT".into(), bytes: raw(0x10, &body), want: Want::Code(0) });
    for extra in [1usize, 2, 10] {
        let mut b = body.clone();
        b.extend(vec![0; extra]);
        v.push(Case { what: format!("CONNECT with {} trailing bytes", extra), bytes: raw(0x10, &b), want: Want::Refused });
    }
    for f in 1..16u8 {
        v.push(Case { what: format!("CONNECT with header flags {}", f), bytes: raw(0x10 | f, &Connect::new(&id()).body()), want: Want::Refused });
    }
    // legal ones with work behind them in the same segment
    for _ in 0..30 {
        let i = id();
        let c = super::c12::legal_connect(rng, &i);
        v.push(Case { what: format!("legal CONNECT {:#x}", c.computed_flags()), bytes: c.build(), want: Want::Code(0) });
    }
    rng.shuffle(&mut v);
    v
}

fn batch(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng, cs: &[Case]) -> Res<()> {
    let addr = w.broker(&Opts::default())?.addr;
    let o = Client::simple(addr, &format!("o{}-{}", r, w.index))?;
    o.sub(&[("evil/#", 0), ("fine/#", 0)])?;
    let mut run = vec![];
    for (i, c) in cs.iter().enumerate() {
        let x = Client::open(addr, &c.what, &SockOpts::default())?;
        let mut b = c.bytes.clone();
        let follow = rng.pct(50);
        let tag = format!("{}.{}", r, i);
        if follow && c.want != Want::Code(1) && c.want != Want::Code(2) {
            if c.want == Want::Code(0) {
                b.extend(pingreq());
                b.extend(publish(b"fine/x", tag.as_bytes(), 1, 3, false, false));
                b.extend(subscribe(4, &[("own/x", 1)]));
            } else {
                b.extend(publish(b"evil/x", tag.as_bytes(), 0, 0, false, false));
            }
        }
        let cut = if rng.pct(30) && b.len() > 2 { rng.range(1, b.len() - 1) } else { b.len() };
        x.try_send(&b[..cut]).ok();
        if cut < b.len() {
            x.try_send(&b[cut..]).ok();
        }
        run.push((x, c, follow, tag));
    }
    let mut fine: Vec<&String> = vec![];
    for (x, c, follow, tag) in &run {
        let what = format!("{}: {}", c.what, hex(&c.bytes));
        match &c.want {
            Want::Code(0) => {
                let sp = x.expect_connack().map_err(|f| f.ctx(&what))?;
                if sp {
                    return x.bad(format!("{}: session present on a new session", what));
                }
                if *follow {
                    for e in [SPkt::PingResp, SPkt::PubAck(3), SPkt::SubAck(4, vec![1])] {
                        let a = x.answer().map_err(|f| f.ctx(&what))?.pkt;
                        if a != e {
                            return x.bad(format!("{}: expected {}, got {}", what, e.brief(), a.brief()));
                        }
                    }
                    fine.push(tag);
                }
                x.ping().map_err(|f| f.ctx(&what))?;
                if rng.pct(50) {
                    // once only
                    let again = match rng.below(3) {
                        // the very same one, or another one
                        0 | 1 if !c.bytes.is_empty() => {
                            ctx.count("second_connects_same_as_the_first", 1);
                            c.bytes.clone()
                        }
                        _ => Connect::new(&format!("twice-{}", tag)).build(),
                    };
                    x.send(&[again, publish(b"evil/x", b"evil", 0, 0, false, false)].concat())?;
                    x.expect_closed(WAIT).map_err(|f| f.ctx(&format!("second CONNECT after {}", what)))?;
                    for a in x.take_answers() {
                        match a.pkt {
                            SPkt::ConnAck { code, .. } if code != 0 => {}
                            p => return x.bad(format!("second CONNECT was answered by {}", p.brief())),
                        }
                    }
                    ctx.count("second_connects", 1);
                } else {
                    x.send(&disconnect())?;
                    x.expect_closed(WAIT)?;
                }
            }
            want => {
                x.expect_closed(WAIT).map_err(|f| f.ctx(&what))?;
                let a: Vec<SPkt> = x.take_answers().into_iter().map(|e| e.pkt).collect();
                let good = match want {
                    Want::Code(k) => a == [SPkt::ConnAck { present: false, code: *k }],
                    Want::Silent => a.is_empty(),
                    _ => a.iter().all(|p| matches!(p, SPkt::ConnAck { code, .. } if *code != 0)),
                };
                if !good {
                    return x.bad(format!("{}: expected {:?}, got {:?}", what, want, a.iter().map(|p| p.brief()).collect::<Vec<_>>()));
                }
                if let Some(m) = x.malformed() {
                    return x.bad(m);
                }
            }
        }
        ctx.eval(Some(hash(c.what.as_bytes()) ^ *follow as u64));
        ctx.count(&format!("want_{:?}", c.want).replace(['(', ')'], ""), 1);
        ctx.sample(|| format!("{} -> {:?}", what, c.want));
    }
    let h = Client::simple(addr, &format!("h{}-{}", r, w.index))?;
    h.publish("fine/end", b"end", 0)?;
    let got = o.messages_until(b"end")?;
    for e in &got {
        let m = e.msg();
        let s = String::from_utf8_lossy(&m.payload).to_string();
        if !fine.iter().any(|f| **f == s) {
            return o.bad(format!("a packet outside a valid connection had an effect: {}; cases {:?}", m.brief(), cs.iter().map(|c| &c.what).collect::<Vec<_>>()));
        }
    }
    if got.len() != fine.len() {
        return o.bad(format!("{} messages of accepted connections instead of {}", got.len(), fine.len()));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one first packet (and what follows it) on a new connection against the CONNECT automaton:
         CONNACK code, silence, refusal, survival; an observer sees whether anything had an effect. Every run: every
         other packet type first (alone, or with CONNECT behind it), all 256 connect flag bytes, all 256 protocol
         levels, wrong protocol names, identifiers, a CONNECT cut at every length, trailing bytes, header flags, legal
         CONNECTs at the extremes with requests in the same segment, second CONNECTs. Distinct by case and follow-up.",
    );
    ctx.assume("a CONNECT that breaks two rules at once may be refused for either");
    let all = cases(&mut Rng::new(ctx.seed, 77), 0);
    ctx.count("cases", all.len() as u64);
    let per = 40;
    let n = all.len().div_ceil(per) as u64;
    rounds(ctx, 6, ctx.secs(15, 240), n, |ctx, w, r, rng| {
        if r % 12 == 11 {
            w.restart();
        }
        if r < n {
            let a = r as usize * per;
            batch(ctx, w, r, rng, &all[a..(a + per).min(all.len())])
        } else {
            let mut v = cases(rng, r);
            v.truncate(per);
            batch(ctx, w, r, rng, &v)
        }
    });
}

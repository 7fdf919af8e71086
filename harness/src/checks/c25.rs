//! Starting: the port, a port that is taken, and a log nobody takes.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

fn serves(b: &Broker, tag: &str) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let s = Client::connect(b.addr, &Connect::new(&format!("s{}", tag)), &so)?;
    s.sub(&[(format!("t/{}", tag), 2)])?;
    let p = Client::connect(b.addr, &Connect::new(&format!("p{}", tag)), &so)?;
    for q in 0..3 {
        let body = format!("{} {}", tag, q).into_bytes();
        p.publish(format!("t/{}", tag), &body, q)?;
        let m = s.message()?;
        if m.msg().payload != body {
            return s.bad(format!("expected {}, got {}", show(&body), m.msg().brief()));
        }
    }
    p.settle(0)
}

/// A second broker on the same port gives up, and says so by its exit status
fn second(ctx: &Ctx, b: &mut Broker, r: u64, rng: &mut Rng) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let c = Client::connect(b.addr, &Connect::new(&format!("stay{}", r)), &so)?;
    c.sub(&[(format!("stay/{}", r), 1)])?;
    let busy = rng.pct(50);
    let mut cmd = Command::new(std::env::var("BROKER_BIN").expect("BROKER_BIN"));
    cmd.env("LD_PRELOAD", std::env::var("VSHIM").expect("VSHIM"))
        .env("VSHIM_ADDR", b.addr.ip().to_string())
        .env("VSHIM_PORT", b.addr.port().to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            crate::sys::die_with_parent();
            Ok(())
        });
    }
    let t = Instant::now();
    let one = FORK.lock().unwrap();
    let spawned = cmd.spawn();
    drop(one);
    let mut child = spawned.map_err(|e| Fail::Inc(format!("cannot start the second broker: {}", e)))?;
    let mut err = child.stderr.take().unwrap();
    let said = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut n = 0;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break s;
        }
        if t.elapsed() > WAIT {
            let _ = child.kill();
            let _ = child.wait();
            return Err(silence(Fail::V(format!("a second broker on the same port neither serves nor ends within {} s", WAIT.as_secs()))));
        }
        if busy {
            n += 1;
            c.publish(format!("stay/{}", r), format!("{}", n).as_bytes(), 1)?;
            let m = c.message()?;
            if m.msg().payload != format!("{}", n).as_bytes() {
                return c.bad(format!("expected message {}, got {}", n, m.msg().brief()));
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let said = said.join().unwrap_or_default();
    ctx.max("second_broker_ends_after_ms", t.elapsed().as_millis() as u64);
    if status.success() || status.code().is_none() {
        viol!("a second broker on the same port ended with {}; it said:\n{}", status, said.chars().take(1500).collect::<String>());
    }
    c.ping()?;
    serves(b, &format!("after{}", r))?;
    b.check_alive()?;
    ctx.count("second_brokers", 1);
    ctx.eval(Some(hash(format!("second {} {}", r, busy).as_bytes())));
    Ok(())
}

/// The broker asks for port 1883 on all addresses, once
fn port(ctx: &Ctx, b: &Broker) -> Res<()> {
    let (port, any) = (b.ctl.bind_port.load(SeqCst), b.ctl.bind_any.load(SeqCst));
    if port != 1883 || any != 1 {
        viol!("the broker listens on port {}{}, not on port 1883 of all addresses", port, if any == 1 { "" } else { " of one address" });
    }
    ctx.eval(Some(hash(b"port")));
    Ok(())
}

/// Everything a broker may have something to say about
fn events(ctx: &Ctx, b: &Broker, tag: &str, rng: &mut Rng) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let (id, topic) = (format!("v{}", tag), format!("ev/{}", tag));
    let witness = Client::connect(b.addr, &Connect::new(&format!("w{}", tag)), &so)?;
    witness.sub(&[(topic.clone(), 2)])?;
    for k in 0..rng.range(6, 14) {
        let persistent = rng.pct(40);
        let mut con = Connect::new(&id).clean(!persistent).keepalive(*rng.pick(&[0u16, 600, 65535]));
        if rng.pct(30) {
            con.will = Some((topic.clone().into_bytes(), b"will".to_vec(), 1, true));
        }
        let c = Client::connect(b.addr, &con, &so)?;
        let what = match rng.below(18) {
            0 => {
                let n = Client::connect(b.addr, &Connect::new(&id).clean(rng.pct(50)), &so)?;
                c.expect_closed(WAIT)?;
                n.ping()?;
                "taken over"
            }
            1 => {
                c.send(&disconnect())?;
                c.expect_closed(WAIT)?;
                "DISCONNECT"
            }
            2 => {
                let x = c.subscribe(&[("a/#/b", 1), ("fine", 1), ("+x", 0)])?;
                if x != [0x80, 1, 0x80] {
                    return c.bad(format!("refused filters: codes {:?}", x));
                }
                "refused filters"
            }
            3 => {
                c.sub(&[("some/thing", 1)])?;
                c.unsub(&["some/thing", "never/subscribed"])?;
                "unsubscribes"
            }
            4 => {
                let d = Client::open(b.addr, "refused", &so)?;
                let mut x = Connect::new("");
                x.clean = false;
                d.send(&x.build())?;
                match d.answer()?.pkt {
                    SPkt::ConnAck { present: false, code: 2 } => {}
                    p => return d.bad(format!("expected CONNACK with code 2, got {}", p.brief())),
                }
                d.expect_closed(WAIT)?;
                "CONNECT refused"
            }
            5 => {
                let d = Client::open(b.addr, "level", &so)?;
                let mut x = Connect::new("level").build();
                let at = x.windows(4).position(|w| w == b"MQTT").unwrap() + 4;
                x[at] = 9;
                let _ = d.try_send(&x);
                d.expect_closed(WAIT)?;
                "unknown level"
            }
            6 => {
                let _ = c.try_send(&Connect::new(&id).build());
                c.expect_closed(WAIT)?;
                "second CONNECT"
            }
            7 => {
                c.half_close();
                c.expect_closed(WAIT)?;
                "half-close"
            }
            8 => {
                c.abort();
                "abort"
            }
            9 => {
                // a session that has been left, taken up again and thrown away
                c.close();
                let (d, _) = Client::connect_sp(b.addr, &Connect::new(&id).clean(false), &so)?;
                d.sub(&[("kept", 2)])?;
                d.send(&disconnect())?;
                d.expect_closed(WAIT)?;
                let (d, sp) = Client::connect_sp(b.addr, &Connect::new(&id).clean(false), &so)?;
                if !sp {
                    return d.bad("the session is gone".into());
                }
                d.ping()?;
                let (_, sp) = Client::connect_sp(b.addr, &Connect::new(&id), &so)?;
                if sp {
                    return d.bad("a clean session is said to be present".into());
                }
                "session taken up"
            }
            10 => {
                let x = publish(topic.as_bytes(), b"twice", 2, 9, false, false);
                let raw = Client::connect(b.addr, &Connect::new(&format!("r{}", tag)), &SockOpts::default())?;
                raw.send(&[x.clone(), x, pubrel(9), pubrel(9), pubrel(10)].concat())?;
                for want in [SPkt::PubRec(9), SPkt::PubRec(9), SPkt::PubComp(9), SPkt::PubComp(9), SPkt::PubComp(10)] {
                    let a = raw.answer()?.pkt;
                    if a != want {
                        return raw.bad(format!("expected {}, got {}", want.brief(), a.brief()));
                    }
                }
                witness.messages_until(b"twice")?;
                "QoS 2 repeated"
            }
            11 => {
                let _ = c.try_send(&[puback(77), pubcomp(78), pubrec(79)].concat());
                c.ping()?;
                "unknown acknowledgements"
            }
            12 => {
                let _ = c.try_send(&publish(b"a/+/b", b"x", 1, 5, false, false));
                c.expect_closed(WAIT)?;
                "wildcard published"
            }
            13 => {
                let _ = c.try_send(&publish(topic.as_bytes(), &[b'x'; 300], 1, 5, false, false)[..200]);
                c.close();
                "end inside a packet"
            }
            14 => {
                for _ in 0..4 {
                    let s = tcp(b.addr).map_err(|e| Fail::V(format!("cannot connect: {}", e)))?;
                    if rng.pct(50) {
                        crate::sys::abort(std::os::fd::AsRawFd::as_raw_fd(&s));
                    }
                }
                "nothing sent"
            }
            15 => {
                c.send(&publish(b"retained/x", b"r", 1, 5, false, true))?;
                c.answer()?;
                c.send(&publish(b"$SYS/x", b"", 0, 0, false, false))?;
                c.sub(&[("$share/g/x", 1)]).or(Ok(()))?;
                c.sub(&[("$SYS/#", 0)])?;
                "retained, $SYS, $share"
            }
            16 => {
                let s = Client::connect(b.addr, &Connect::new(&format!("gone{}", tag)), &SockOpts { rcvbuf: Some(4096), ..Default::default() })?;
                s.sub(&[(topic.clone(), 1)])?;
                s.pause(true);
                c.publish(&topic, &vec![b'x'; 300_000], 1)?;
                witness.message()?;
                s.abort();
                "a subscriber reset in the middle of a delivery"
            }
            _ => {
                c.publish(format!("nobody/{}", tag), b"x", rng.below(3) as u8)?;
                c.settle(0)?;
                "nobody subscribed"
            }
        };
        ctx.count(&format!("unheard_{}", what.replace([' ', ',', '$'], "_")), 1);
        ctx.eval(Some(hash(format!("event {} {} {}", what, persistent, k).as_bytes())));
        // whoever it happened to, the others go on
        let body = format!("{}", k).into_bytes();
        let d = Client::connect(b.addr, &Connect::new(&format!("d{}", tag)), &so)?;
        d.publish(&topic, &body, 1)?;
        d.settle(0)?;
        witness.messages_until(&body).map_err(|f| f.ctx(&format!("after: {}", what)))?;
    }
    Ok(())
}

/// Nobody reads the log, or it cannot be written at all
fn deaf(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let how = *rng.pick(&["closed pipe", "/dev/full", "closed descriptor", "output closed pipe", "output /dev/full"]);
    let mut b = Broker::start(&Opts { deaf: Some(how), ..Default::default() })?;
    let n = rng.range(2, 6);
    for i in 0..n {
        let broken = |f: Fail| f.ctx(&format!("with standard error and output on a {}", how));
        serves(&b, &format!("deaf{}-{}", r, i)).map_err(broken)?;
        events(ctx, &b, &format!("{}-{}", r, i), rng).map_err(broken)?;
        // errors are logged, too
        let c = Client::simple(b.addr, &format!("e{}", i))?;
        let _ = c.try_send(&[0xf0, 0]);
        c.expect_closed(WAIT)?;
    }
    b.check_alive()?;
    if let Some(m) = b.reports().first() {
        viol!("with {}, the broker reported:\n{}", how, m);
    }
    b.interrupt();
    match b.wait_exit(WAIT) {
        Some(s) if s.success() => {}
        s => viol!("with standard error and output on a {}, SIGINT ends the broker with {:?}", how, s),
    }
    ctx.count(&format!("log_on_{}", how.replace([' ', '/'], "_")), 1);
    ctx.eval(Some(hash(format!("deaf {} {}", how, n).as_bytes())));
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 3 == 2 {
        return deaf(ctx, r, rng);
    }
    if rng.pct(40) {
        w.restart();
    }
    let b = w.broker(&Opts::default())?;
    port(ctx, b)?;
    second(ctx, b, r, rng)
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one start. The shim records which address the broker asked for (port 1883, all addresses) before
         it narrows it; a second broker on a port in use must end by itself with a failure status while the clients of
         the first go on exchanging messages; a broker whose standard output, or output and error, are closed, full or a
         broken pipe must serve and stop as usual, whatever happens that it may want to say something about (18 kinds of
         events, from takeovers and refusals to resets), and without a panic. Distinct by round, kind and event.",
    );
    rounds(ctx, 4, ctx.secs(10, 60), 24, round);
}

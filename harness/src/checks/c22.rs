//! The broker under AddressSanitizer, ThreadSanitizer and Miri.
use super::{c11, c13};
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::net::{SocketAddr, TcpListener};
use std::os::fd::AsRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Asan,
    Tsan,
    Miri,
}

fn var(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| panic!("{} is not set", k))
}

fn opts(k: Kind, r: u64) -> Opts {
    let mut o = Opts::default();
    match k {
        Kind::Asan => {
            o.bin = Some(var("BROKER_ASAN"));
            o.env = vec![("ASAN_OPTIONS".into(), "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=1".into())];
        }
        Kind::Tsan => {
            o.bin = Some(var("BROKER_TSAN"));
            o.env = vec![("TSAN_OPTIONS".into(), "halt_on_error=0:exitcode=66:report_signal_unsafe=0".into())];
            o.preempt = (r % 2 == 1).then_some((5000, 100));
        }
        Kind::Miri => {
            o.cmd = Some(
                ["cargo", "miri", "run", "--offline", "--locked", "--target-dir", &var("BROKER_MIRI_TARGET")].iter().map(|s| s.to_string()).collect(),
            );
            o.cwd = Some(var("BROKER_REPO"));
            o.env = vec![
                ("RUSTUP_TOOLCHAIN".into(), var("BROKER_NIGHTLY")),
                ("CARGO_INCREMENTAL".into(), "0".into()),
                // tokio's intrusive lists break the (experimental) aliasing rules;
                // its race detector takes the event queue of the kernel for a race; ThreadSanitizer looks for those
                ("MIRIFLAGS".into(), "-Zmiri-disable-isolation -Zmiri-disable-data-race-detector -Zmiri-disable-stacked-borrows -Zmiri-backtrace=full".into()),
            ];
            o.addr = Some(SocketAddr::from(([127, 0, 0, 1], 1883)));
            o.start_limit = Duration::from_secs(300);
        }
    }
    o
}

fn hostile(ctx: &Ctx, k: Kind, addr: SocketAddr, n: usize, rng: &mut Rng) {
    for i in 0..n {
        let (_, b) = c13::stream(rng, &format!("x{}", i % 7));
        // what becomes of the connection is for other checks to judge
        let _ = c13::attack(rng, addr, &b);
        ctx.eval(Some(hash(&b) ^ k as u64));
        ctx.count(&format!("{:?}_hostile_connections", k), 1);
    }
}

fn catalogue(ctx: &Ctx, k: Kind, addr: SocketAddr, n: usize, rng: &mut Rng) {
    let so = SockOpts::default();
    for (i, case) in c11::catalogue(rng, 1).into_iter().take(n).enumerate() {
        let Ok(c) = Client::open(addr, "case", &so) else { return };
        let mut b = Connect::new(&format!("k{}", i)).build();
        b.extend(&case.bytes);
        let _ = c.try_send(&b);
        if k == Kind::Miri {
            let _ = c.expect_closed(Duration::from_secs(20));
        }
        ctx.eval(Some(hash(&b) ^ k as u64));
        ctx.count(&format!("{:?}_catalogue_cases", k), 1);
    }
}

/// Legal traffic of every kind, on one connection
fn tour(ctx: &Ctx, k: Kind, addr: SocketAddr, id: &str, rng: &mut Rng) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let mut cn = Connect::new(id).clean(rng.pct(50)).keepalive(600);
    cn.will = Some((b"w".to_vec(), vec![0, 0xff, 7], rng.below(3) as u8, true));
    cn.user = Some(b"user".to_vec());
    cn.pass = Some(vec![0xfe, 0, 1]);
    let c = Client::connect(addr, &cn, &so)?;
    c.sub(&[("t/+", 2), ("t/#", 0), ("+/x", 1)])?;
    let c2 = c.subscribe(&[("bad/#/x", 1), ("$share/g/t/x", 1), ("$SYS/#", 0)])?;
    let _ = c2;
    for q in 0..3 {
        let n = if k == Kind::Miri { 300 } else { *rng.pick(&[0, 1, 20_000, 3_000_000]) };
        c.publish("t/x", &vec![b'p'; n], q)?;
        c.message()?;
    }
    c.settle(0)?;
    c.send(&puback(77))?;
    c.send(&pubcomp(77))?;
    c.unsub(&["t/+", "nothing"])?;
    c.ping()?;
    match rng.below(4) {
        0 => c.abort(),
        1 => c.half_close(),
        2 => c.send(&disconnect())?,
        _ => {
            // taken over
            let n = Client::connect(addr, &Connect::new(id).clean(rng.pct(50)), &so)?;
            c.expect_closed(WAIT)?;
            n.send(&disconnect())?;
        }
    }
    ctx.count(&format!("{:?}_tours_of_legal_packets", k), 1);
    ctx.eval(Some(hash(format!("{:?} {} {:?}", k, id, rng.0).as_bytes())));
    Ok(())
}

/// Everything at the same time, from several threads
fn crowd(ctx: &Ctx, k: Kind, addr: SocketAddr, time: Duration, rng: &mut Rng) -> Res<()> {
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    std::thread::scope(|s| {
        for i in 0..8 {
            let mut rng = Rng::new(rng.next(), i);
            let fail = &fail;
            s.spawn(move || {
                let t0 = Instant::now();
                let mut n = 0;
                while t0.elapsed() < time {
                    n += 1;
                    let r: Res<()> = (|| {
                        if i < 2 {
                            return tour(ctx, k, addr, &format!("tour{}-{}", i, n), &mut rng);
                        }
                        let so = SockOpts { auto_ack: true, auto_pub: true, discard: true, ..Default::default() };
                        let id = if rng.pct(60) { format!("crowd{}-{}", i, n) } else { "shared".into() };
                        let c = Client::open(addr, &id, &so)?;
                        let mut b = Connect::new(&id).clean(rng.pct(60)).build();
                        for j in 0..rng.range(1, 20) {
                            let f = *rng.pick(&["c/#", "c/+", "c/1", "$share/g/c/1", "+/2", "#"]);
                            match rng.below(5) {
                                0 => b.extend(subscribe(1 + j as u16, &[(f, rng.below(3) as u8)])),
                                1 => b.extend(unsubscribe(1 + j as u16, &[f])),
                                2 => b.extend(pingreq()),
                                _ => b.extend(publish(format!("c/{}", rng.below(4)).as_bytes(), &[b'c'; 100], rng.below(3) as u8, 1 + j as u16, false, false)),
                            }
                        }
                        let _ = c.try_send(&b);
                        if rng.pct(60) {
                            // no more load than it can take
                            let _ = c.ping();
                        } else {
                            std::thread::sleep(Duration::from_micros(rng.below(2000) as u64));
                        }
                        match rng.below(3) {
                            0 => crate::sys::abort(c.sock.as_raw_fd()),
                            1 => {
                                let _ = c.try_send(&disconnect());
                            }
                            _ => {}
                        }
                        ctx.count(&format!("{:?}_crowd_connections", k), 1);
                        ctx.eval(Some(hash(&b) ^ (k as u64) << 40));
                        Ok(())
                    })();
                    if let Err(f) = r {
                        fail.lock().unwrap().get_or_insert(f);
                        break;
                    }
                }
            });
        }
    });
    match fail.into_inner().unwrap() {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

/// Ever more connections that do the same thing at the same time, and end at the same time
fn waves(ctx: &Ctx, k: Kind, addr: SocketAddr, rng: &mut Rng) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, discard: true, ..Default::default() };
    for n in [2usize, 3, 5, 8, 13, 21, 34, 55] {
        let cs = (0..n)
            .map(|i| {
                let c = Client::open(addr, &format!("wave{}-{}", n, i), &so)?;
                c.send(&Connect::new(&format!("wave{}-{}", n, i)).clean(rng.pct(60)).build())?;
                Ok(c)
            })
            .collect::<Res<Vec<_>>>()?;
        for c in &cs {
            c.expect_connack()?;
        }
        let same = match rng.below(4) {
            0 => subscribe(1, &[("wave/#", 2), ("wave/+/x", 1), ("$share/a/b", 1), ("a/#/b", 1)]),
            1 => publish(b"wave/a", b"wave", 2, 1, false, false),
            2 => unsubscribe(1, &["wave/#", "wave/a"]),
            _ => [puback(9), pubrec(10), pubcomp(11), pingreq()].concat(),
        };
        let how = rng.below(4);
        std::thread::scope(|s| {
            for part in cs.chunks(n.div_ceil(6)) {
                let same = &same;
                s.spawn(move || {
                    for c in part {
                        let _ = c.try_send(same);
                    }
                    std::thread::sleep(Duration::from_millis(1));
                    for c in part {
                        match how {
                            0 => c.abort(),
                            1 => drop(c.try_send(&disconnect())),
                            2 => drop(c.try_send(&[0xf0, 0])),
                            _ => c.half_close(),
                        }
                    }
                });
            }
        });
        for c in &cs {
            if how != 0 {
                c.expect_closed(WAIT)?;
            }
        }
        ctx.count(&format!("{:?}_connections_ended_together", k), n as u64);
        ctx.eval(Some(hash(format!("{:?} wave {} {} {:?}", k, n, how, same).as_bytes())));
    }
    Ok(())
}

fn judge(b: &Broker, k: Kind) -> Res<()> {
    if let Some(m) = b.reports().first() {
        return Err(Fail::V(format!("{:?} reports:\n{}", k, m)));
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let k = match w.index {
        0 => Kind::Miri,
        1 | 2 => Kind::Tsan,
        _ => Kind::Asan,
    };
    let taken = || {
        let _one = FORK.lock().unwrap();
        TcpListener::bind("0.0.0.0:1883").is_err()
    };
    if k == Kind::Miri && taken() {
        // somebody else's broker
        ctx.count("Miri_port_taken", 1);
        std::thread::sleep(Duration::from_secs(2));
        return Ok(());
    }
    let mut b = Broker::start(&opts(k, r))?;
    let addr = b.addr;
    let t0 = Instant::now();
    let res = (|| -> Res<()> {
        match k {
            Kind::Miri => {
                let time = ctx.secs(70, 560);
                tour(ctx, k, addr, "miri", rng)?;
                let mut n = 0;
                while t0.elapsed() < time && b.reports().is_empty() {
                    n += 1;
                    catalogue(ctx, k, addr, 6, rng);
                    if n % 2 == 0 {
                        hostile(ctx, k, addr, 3, rng);
                    }
                    if n % 5 == 0 {
                        tour(ctx, k, addr, &format!("miri{}", n), rng)?;
                    }
                }
                Ok(())
            }
            Kind::Tsan => {
                waves(ctx, k, addr, rng)?;
                crowd(ctx, k, addr, Duration::from_secs(4), rng)?;
                waves(ctx, k, addr, rng)?;
                std::thread::scope(|s| {
                    for i in 0..3 {
                        let mut rng = Rng::new(rng.next(), i);
                        s.spawn(move || hostile(ctx, k, addr, 30, &mut rng));
                    }
                });
                Ok(())
            }
            Kind::Asan => {
                catalogue(ctx, k, addr, 500, rng);
                for i in 0..5 {
                    tour(ctx, k, addr, &format!("t{}", i), rng)?;
                }
                std::thread::scope(|s| {
                    for i in 0..3 {
                        let mut rng = Rng::new(rng.next(), i);
                        s.spawn(move || hostile(ctx, k, addr, 150, &mut rng));
                    }
                });
                crowd(ctx, k, addr, Duration::from_secs(2), rng)
            }
        }
    })();
    if std::env::var("VH_DEBUG").is_ok() {
        eprintln!("{:?} round {}: {} ms {:?}", k, r, t0.elapsed().as_millis(), res.as_ref().map_err(|f| match f { Fail::V(m) | Fail::Inc(m) => m.clone() }));
    }
    judge(&b, k)?;
    // what goes wrong without a report is for other checks; under instrumentation it may be slowness
    if let Err(f) = res {
        let died = b.exited();
        let m = match f {
            Fail::V(m) | Fail::Inc(m) => m,
        };
        judge(&b, k)?;
        if let Some(d) = died {
            return Err(Fail::V(format!("under {:?} the broker ended ({}): {}\n{}", k, d, m, b.tail(40))));
        }
        if k == Kind::Miri {
            // some thousand times slower; a packet of a few megabytes takes it minutes
            ctx.count("Miri_runs_cut_short", 1);
            return Ok(());
        }
        return Err(Fail::Inc(format!("under {:?}: {}", k, m)));
    }
    if k != Kind::Miri {
        // sanitizers speak at the end, too
        b.interrupt();
        let t1 = Instant::now();
        let mut st = b.wait_exit(Duration::from_secs(2));
        // ThreadSanitizer keeps a signal back until the thread that got it calls something
        for _ in 0..20 {
            if st.is_none() {
                crate::sys::signal_threads(b.pid, 2);
                st = b.wait_exit(Duration::from_secs(3));
            }
        }
        ctx.max(&format!("{:?}_longest_shutdown_ms", k), t1.elapsed().as_millis() as u64);
        std::thread::sleep(Duration::from_millis(50));
        judge(&b, k)?;
        if st.and_then(|s| s.code()) == Some(66) {
            return Err(Fail::V(format!("ThreadSanitizer ended the broker with its own status\n{}", b.tail(40))));
        }
        ctx.count(&format!("{:?}_shutdowns", k), 1);
    }
    ctx.count(&format!("{:?}_brokers", k), 1);
    ctx.count(&format!("{:?}_log_lines_watched", k), b.log.lock().unwrap().lines);
    ctx.sample(|| format!("{:?} round {}: no report in {} log lines", k, r, b.log.lock().unwrap().lines));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one connection to a broker built with AddressSanitizer or ThreadSanitizer (with debug assertions, so
         that enum and overflow checks are in) or interpreted by Miri: malformed packets of the whole catalogue, hostile
         streams, tours of all legal packets, crowds of concurrent clients, waves of connections that act and end together, and shutdown. Any report is a violation.
         Distinct by bytes and build.",
    );
    ctx.assume("Miri runs without its race detector (races are ThreadSanitizer's), isolation and aliasing rules");
    ctx.assume("the standard library is instrumented for ThreadSanitizer only");
    rounds(ctx, 5, ctx.secs(50, 560), 5, round);
}

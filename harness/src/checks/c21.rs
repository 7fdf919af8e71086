//! Failing and futile connection attempts.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::net::{SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

struct Canary {
    s: Client,
    p: Client,
    n: u64,
}

impl Canary {
    fn new(addr: SocketAddr, tag: &str) -> Res<Canary> {
        let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
        let s = Client::connect(addr, &Connect::new(&format!("s{}", tag)), &so)?;
        let p = Client::connect(addr, &Connect::new(&format!("p{}", tag)), &so)?;
        s.sub(&[("canary/#", 2)])?;
        Ok(Canary { s, p, n: 0 })
    }
    fn sing(&mut self, rng: &mut Rng) -> Res<()> {
        self.n += 1;
        let b = format!("{}", self.n).into_bytes();
        self.p.publish("canary/x", &b, rng.below(3) as u8)?;
        let m = self.s.message().map_err(|f| f.ctx("an existing client"))?;
        if m.msg().payload != b {
            return self.s.bad(format!("received {} instead of number {}", m.msg().brief(), self.n));
        }
        self.p.settle(0)?;
        match rng.below(4) {
            0 => self.s.ping(),
            1 => {
                self.s.sub(&[("canary/y", 1)])?;
                self.s.unsub(&["canary/y"])
            }
            _ => Ok(()),
        }
    }
}

/// A new client is accepted and served
fn newcomer(addr: SocketAddr, id: &str) -> Res<Client> {
    let c = Client::simple(addr, id).map_err(|f| f.ctx("a new client"))?;
    c.sub(&[(format!("n/{}", id), 1)])?;
    c.publish(format!("n/{}", id), b"own", 1)?;
    c.message().map_err(|f| f.ctx("a new client"))?;
    c.answer()?;
    Ok(c)
}

fn leave(c: Client, rng: &mut Rng) {
    match rng.below(4) {
        0 => {
            let _ = c.try_send(&disconnect());
        }
        1 => c.abort(),
        2 => c.half_close(),
        _ => {}
    }
}

fn exhaustion(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    w.restart();
    let limit = rng.range(30, 80);
    let b = w.broker(&Opts { nofile: Some(limit as u64), ..Default::default() })?;
    let addr = b.addr;
    let mut can = Canary::new(addr, "c")?;
    let base = b.sockets();
    let mut done = 0;
    for cycle in 0..rng.range(2, 5) {
        let n = limit + rng.range(1, 60);
        let mut cs: Vec<Client> = vec![];
        let before = b.ctl.accept_emfile.load(SeqCst);
        let so = SockOpts { auto_ack: true, ..Default::default() };
        for i in 0..n {
            let c = Client::open(addr, &format!("x{}-{}", cycle, i), &so)?;
            if rng.pct(80) {
                let mut x = Connect::new(&format!("x{}-{}", cycle, i)).build();
                x.extend(subscribe(1, &[("x", 1)]));
                let _ = c.try_send(&x);
            }
            cs.push(c);
            if i % 16 == 0 {
                can.sing(rng)?;
            }
        }
        for _ in 0..rng.range(3, 15) {
            can.sing(rng).map_err(|f| f.ctx("while the broker is out of descriptors"))?;
            std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
        }
        let end = Instant::now() + WAIT;
        while b.ctl.accept_emfile.load(SeqCst) == before && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(2));
        }
        let hit = b.ctl.accept_emfile.load(SeqCst) - before;
        if hit == 0 {
            return Err(Fail::Inc("the broker never ran out of descriptors".into()));
        }
        ctx.count("accepts_that_failed", hit);
        ctx.max("most_sockets_in_use", b.sockets() as u64);
        // some leave: those that waited come in
        rng.shuffle(&mut cs);
        let k = rng.range(n / 4, n);
        let stay = cs.split_off(k);
        for c in cs {
            leave(c, rng);
        }
        can.sing(rng)?;
        if limit > 16 + stay.len() + 14 {
            // room for everybody again
            let c = newcomer(addr, &format!("new{}-{}", cycle, r))?;
            leave(c, rng);
            ctx.count("newcomers_beside_others", 1);
        }
        for c in stay {
            leave(c, rng);
        }
        let c = newcomer(addr, &format!("after{}-{}", cycle, r))?;
        leave(c, rng);
        can.sing(rng)?;
        let end = Instant::now() + WAIT;
        while b.sockets() > base {
            if Instant::now() > end {
                return Err(silence(Fail::V(format!("{} sockets are in use after everybody left, {} before", b.sockets(), base))));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        done += 1;
        ctx.eval(Some(hash(format!("{} {} {} {}", limit, n, k, cycle).as_bytes()) ^ r));
    }
    ctx.count("exhaustions", done);
    ctx.sample(|| format!("limit of {} descriptors, exhausted {} times, {} canary messages", limit, done, can.n));
    w.restart();
    Ok(())
}

fn injected(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let b = w.broker(&Opts::default())?;
    let addr = b.addr;
    let mut can = Canary::new(addr, &format!("i{}", r))?;
    for step in 0..4 {
        // EMFILE, ENFILE, ECONNABORTED
        let (errno, name) = *rng.pick(&[(24, "EMFILE"), (23, "ENFILE"), (103, "ECONNABORTED")]);
        let permille = *rng.pick(&[50u32, 300, 700, 950, 1000]);
        let fails = b.ctl.accept_fails.load(SeqCst);
        b.ctl.accept_errno.store(errno, SeqCst);
        b.ctl.accept_fail_permille.store(permille, SeqCst);
        let mut waiting = vec![];
        for i in 0..rng.range(1, 12) {
            let id = format!("i{}-{}-{}", r, step, i);
            if permille < 1000 {
                // fails now and then, but gets through
                let c = newcomer(addr, &id).map_err(|f| f.ctx(&format!("{} permille of accepts fail with {}", permille, name)))?;
                leave(c, rng);
            } else {
                let c = Client::open(addr, &id, &SockOpts::default())?;
                let _ = c.try_send(&Connect::new(&id).build());
                waiting.push(c);
            }
            can.sing(rng).map_err(|f| f.ctx(&format!("{} permille of accepts fail with {}", permille, name)))?;
        }
        b.ctl.accept_fail_permille.store(0, SeqCst);
        for c in &waiting {
            c.expect_connack().map_err(|f| f.ctx("a connection that could not be accepted at first"))?;
        }
        newcomer(addr, &format!("then{}-{}", r, step))?;
        let n = b.ctl.accept_fails.load(SeqCst) - fails;
        ctx.count(&format!("injected_{}", name), n);
        ctx.eval((n > 0).then(|| hash(format!("{} {} {}", errno, permille, step).as_bytes()) ^ r));
    }
    Ok(())
}

fn futile(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let b = w.broker(&Opts::default())?;
    let addr = b.addr;
    let base = b.sockets();
    let mut can = Canary::new(addr, &format!("f{}", r))?;
    for step in 0..3 {
        let n = rng.range(20, 200);
        let mut open: Vec<TcpStream> = vec![];
        for i in 0..n {
            let s = tcp(addr).map_err(|e| silence(Fail::V(format!("cannot connect: {}", e))))?;
            match rng.below(5) {
                0 | 1 => crate::sys::abort(s.as_raw_fd()),
                2 => {}
                3 => {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    open.push(s);
                }
                _ => open.push(s),
            }
            if i % 40 == 0 {
                can.sing(rng)?;
            }
        }
        can.sing(rng)?;
        let c = newcomer(addr, &format!("f{}-{}", r, step)).map_err(|f| f.ctx("after aborted and closed connection attempts"))?;
        leave(c, rng);
        ctx.count("futile_attempts", n as u64);
        ctx.eval(Some(hash(format!("{} {}", n, step).as_bytes()) ^ r));
    }
    drop(can);
    let end = Instant::now() + WAIT;
    while b.sockets() > base {
        if Instant::now() > end {
            return Err(silence(Fail::V(format!("{} sockets are in use after everybody left, {} before", b.sockets(), base))));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(())
}

/// Very many connections that come to nothing, in every way and from several sides
fn storm(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let b = w.broker(&Opts::default())?;
    let addr = b.addr;
    let base = b.sockets();
    let mut can = Canary::new(addr, &format!("st{}", r))?;
    let each = ctx.n(1500, 8000);
    // beside thousands that stay
    let mut stay = vec![];
    for i in 0..ctx.n(2500, 6000) {
        let Ok(mut s) = tcp(addr) else { break };
        if i % 2 == 0 {
            use std::io::Write;
            let _ = s.write_all(&Connect::new(&format!("stay{}-{}", r, i)).build());
        }
        stay.push(s);
        if i % 200 == 0 {
            can.sing(rng)?;
        }
    }
    let c = newcomer(addr, &format!("beside{}", r)).map_err(|f| f.ctx(&format!("beside {} other connections", stay.len())))?;
    leave(c, rng);
    ctx.max("most_connections_at_once", stay.len() as u64);
    let done = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| -> Res<()> {
        let mut hs = vec![];
        for t in 0..8u64 {
            let mut rng = Rng::new(rng.next(), t);
            let done = &done;
            hs.push(s.spawn(move || {
                use std::io::{Read, Write};
                for i in 0..each {
                    let Ok(mut s) = tcp(addr) else { continue };
                    let id = format!("st{}-{}-{}", r, t, i);
                    let c = Connect::new(&id).build();
                    let bytes: Vec<u8> = match rng.below(8) {
                        0 => vec![],
                        1 => c[..rng.range(1, c.len() - 1)].to_vec(),
                        2 => vec![0xf0, 0],
                        3 => [c.clone(), vec![0x36, 2, 0, 0]].concat(),
                        4 => [c.clone(), publish(b"st/x", b"x", 1, 4, false, false)].concat(),
                        5 => [c.clone(), subscribe(3, &[("st/#", 1)])].concat(),
                        6 => [c.clone(), disconnect()].concat(),
                        _ => c,
                    };
                    let _ = s.write_all(&bytes);
                    if rng.pct(50) {
                        // until it has been served, or closed
                        let _ = s.set_read_timeout(Some(Duration::from_millis(2)));
                        let _ = s.read(&mut [0; 64]);
                    }
                    if rng.pct(90) {
                        crate::sys::abort(s.as_raw_fd());
                    }
                    done.fetch_add(1, Relaxed);
                }
            }));
        }
        while hs.iter().any(|h| !h.is_finished()) {
            can.sing(rng).map_err(|f| f.ctx("in a storm of connections that come to nothing"))?;
        }
        Ok(())
    })?;
    for k in 0..3 {
        let c = newcomer(addr, &format!("storm{}-{}", r, k)).map_err(|f| f.ctx(&format!("after {} connections that came to nothing", done.load(Relaxed))))?;
        leave(c, rng);
    }
    can.sing(rng)?;
    ctx.count("connections_in_storms", done.load(Relaxed));
    ctx.eval(Some(hash(format!("storm {} {}", r, each).as_bytes())));
    drop(stay);
    drop(can);
    let end = Instant::now() + WAIT;
    while b.sockets() > base {
        if Instant::now() > end {
            return Err(silence(Fail::V(format!("{} sockets are in use after everybody left, {} before", b.sockets(), base))));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 7 == 4 {
        storm(ctx, w, r, rng)?;
    }
    match r % 3 {
        0 => exhaustion(ctx, w, r, rng),
        1 => injected(ctx, w, r, rng),
        _ => futile(ctx, w, r, rng),
    }?;
    if let Some(b) = &w.broker {
        if let Some(m) = b.reports().first() {
            return Err(Fail::V(format!("the broker reported:\n{}", m)));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one episode of failing accepts: descriptors really exhausted (RLIMIT_NOFILE of 30 to 80, up to 60
         connections too many, several times over), accepts made to fail with EMFILE, ENFILE or ECONNABORTED (5 to 100
         per cent), or tens to hundreds of connection attempts aborted or closed at once, or a storm of 12000 and more connections that end in
         eight ways before or behind their CONNECT. All the while a canary pair
         exchanges messages; afterwards (and, below 100 per cent, meanwhile) new clients are served, connections that
         waited are accepted, and the broker's sockets come down to those in use. Distinct by parameters and round.",
    );
    rounds(ctx, 5, ctx.secs(18, 300), 15, round);
}

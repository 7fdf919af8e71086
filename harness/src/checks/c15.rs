//! Client identifiers and the connections that own them.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Doing {
    Idle,
    MidPacket,
    Stalled,
    Flooding,
    Subscribing,
    Pipelining,
    Disconnecting,
    Aborting,
    HalfClosing,
    Misbehaving,
    Pinging,
}
use Doing::*;
const ALL: &[Doing] = &[Idle, MidPacket, Stalled, Flooding, Subscribing, Pipelining, Pipelining, Disconnecting, Aborting, HalfClosing, Misbehaving, Pinging];

/// What the session of one identifier holds, as far as is known
#[derive(Default, Clone)]
struct Model {
    held: BTreeMap<String, u8>,
    /// requested or given up without an acknowledgement
    maybe: BTreeSet<String>,
}

struct Env {
    addr: SocketAddr,
    p: Client,
    o: Client,
    n: std::cell::Cell<u64>,
}

impl Env {
    fn body(&self, s: &str) -> Vec<u8> {
        self.n.set(self.n.get() + 1);
        format!("{}#{}", s, self.n.get()).into_bytes()
    }
}

fn wait_sockets(b: &Broker, want: usize) -> bool {
    let end = Instant::now() + WAIT;
    loop {
        if b.sockets() <= want {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// The connection owns its session: everything works on it, and it holds what the model says
fn works(env: &Env, c: &Client, m: &mut Model, base: &str, extra: &[String]) -> Res<()> {
    let new = format!("{}/new", base);
    c.sub(&[(new.clone(), 1)])?;
    m.maybe.remove(&new);
    m.held.insert(new.clone(), 1);
    let mut topics: BTreeSet<String> = m.held.keys().cloned().collect();
    topics.extend(m.maybe.iter().cloned());
    topics.extend(extra.iter().cloned());
    topics.remove(&new);
    let mut sent = vec![];
    for t in &topics {
        let b = env.body(t);
        env.p.publish(t, &b, 2)?;
        sent.push((t.clone(), b));
    }
    let end = env.body("end");
    env.p.publish(&new, &end, 2)?;
    let got = c.messages_until(&end).map_err(|f| f.ctx("the newest connection does not get what it subscribed to"))?;
    for (t, b) in &sent {
        let n = got.iter().filter(|e| e.msg().payload == *b).count();
        match m.held.get(t) {
            Some(q) => {
                if n != 1 {
                    return c.bad(format!("holds {} at QoS {}, but received {} copies of what was published there", t, q, n));
                }
                if let Some(e) = got.iter().find(|e| e.msg().payload == *b && e.msg().qos != *q) {
                    return c.bad(format!("holds {} at QoS {}, received {}", t, q, e.msg().brief()));
                }
            }
            None if m.maybe.contains(t) => {
                if n > 1 {
                    return c.bad(format!("received {} copies of what was published on {}", n, t));
                }
            }
            None => {
                if n != 0 {
                    return c.bad(format!("does not hold {}, but received what was published there", t));
                }
            }
        }
    }
    // what it publishes gets through
    let b = env.body("out");
    c.publish(format!("o/{}", base), &b, 1)?;
    let skipped = env.o.messages_until(&b).map_err(|f| f.ctx(&format!("what {} published on its newest connection", base)))?;
    for e in skipped {
        let t = &e.msg().topic;
        if !t.starts_with(b"o/") {
            return env.o.bad(format!("received {}", e.msg().brief()));
        }
    }
    c.settle(0)?;
    env.p.settle(0)?;
    c.ping()
}

fn takeover(ctx: &Ctx, b: &Broker, env: &Env, r: u64, rng: &mut Rng) -> Res<()> {
    let id = format!("id{}-{}", r, rng.below(1 << 30));
    let base = format!("t/{}", id);
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let mut m = Model::default();
    let mut clean = rng.pct(50);
    let mut old = Client::connect(env.addr, &Connect::new(&id).clean(clean), &so)?;
    let mut ended: Vec<Client> = vec![];
    let mut story = format!("{} connected, clean {}", id, clean);
    for step in 0..rng.range(1, 3) {
        let ctxt = |f: Fail| f.ctx(&story);
        let a = format!("{}/a{}", base, step);
        let bb = format!("{}/b{}", base, step);
        // now and then it has never subscribed to anything
        if step > 0 || rng.pct(65) {
            old.sub(&[(a.clone(), 1), (bb.clone(), 2)]).map_err(ctxt)?;
            m.held.insert(a.clone(), 1);
            m.held.insert(bb.clone(), 2);
            if step == 0 && rng.pct(4) {
                // very many
                let f: Vec<(String, u8)> = (0..rng.range(200, 1500)).map(|i| (format!("{}/r{}", base, i), (i % 3) as u8)).collect();
                old.sub(&f).map_err(ctxt)?;
                m.held.extend(f);
                ctx.count("takeovers_of_clients_with_very_many_filters", 1);
            }
        } else {
            ctx.count("takeovers_of_bare_connections", 1);
        }
        let mut doing = *rng.pick(ALL);
        if doing == Stalled && step > 0 {
            doing = Idle;
        }
        let k = if rng.pct(30) { rng.range(2, 4) } else { 1 };
        let new_clean = rng.pct(50);
        let delay = Duration::from_micros(*rng.pick(&[0, 0, 50, 200, 800, 2500]));
        story = format!("{}; while {:?}, {} new connection(s), clean {}", story, doing, k, new_clean);
        let ctxt = |f: Fail| f.ctx(&story);
        // ---- the old connection at work
        let stop = Arc::new(AtomicBool::new(false));
        let acked: Arc<Mutex<Model>> = Arc::default();
        let base_sockets = b.sockets();
        let mut stalled = None;
        if doing == Stalled {
            // replaced by a connection that does not read
            let so = SockOpts { rcvbuf: Some(4096), paused: true, ..Default::default() };
            let c = Client::connect(env.addr, &Connect::new(&id).clean(clean), &so)?;
            old.expect_closed(WAIT).map_err(ctxt)?;
            if clean {
                m = Model::default();
            }
            c.send(&subscribe(1, &[(a.clone(), 1)]))?;
            m.held.insert(a.clone(), 1);
            // wait for the subscription to be effective: it cannot be read, so try it out
            std::thread::sleep(Duration::from_millis(30));
            let big = vec![b'x'; 16 * 1024];
            for _ in 0..rng.range(20, 60) {
                env.p.publish(&a, &big, 0)?;
            }
            env.p.ping()?;
            std::mem::swap(&mut old, &mut c.into());
            stalled = Some(());
            std::thread::sleep(Duration::from_millis(rng.below(50) as u64));
        }
        let th = {
            let sock = old.sock.clone();
            let sh = old.sh.clone();
            let (stop, acked, base) = (stop.clone(), acked.clone(), base.clone());
            let mut rng = Rng::new(rng.next(), 7);
            std::thread::spawn(move || {
                use std::io::Write;
                let put = |b: &[u8]| (&*sock).write_all(b).is_ok();
                match doing {
                    Idle | Stalled => {}
                    MidPacket => {
                        let b = publish(format!("o/{}", base).as_bytes(), &[b'y'; 3000], 1, 40000, false, false);
                        put(&b[..rng.range(1, b.len() - 1)]);
                    }
                    Flooding => {
                        let b = publish(format!("o/{}", base).as_bytes(), b"flood", 0, 0, false, false).repeat(5);
                        while !stop.load(SeqCst) && put(&b) {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                    }
                    Pinging => {
                        let b = pingreq().repeat(20);
                        while !stop.load(SeqCst) && put(&b) {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                    }
                    Subscribing => {
                        let mut pid = 20000;
                        'outer: while !stop.load(SeqCst) {
                            pid += 1;
                            let f = format!("{}/s{}", base, rng.below(4));
                            let out = rng.pct(40);
                            let q = rng.below(3) as u8;
                            {
                                let mut m = acked.lock().unwrap();
                                m.held.remove(&f);
                                m.maybe.insert(f.clone());
                            }
                            let sent = if out { put(&unsubscribe(pid, &[&f])) } else { put(&subscribe(pid, &[(&f, q)])) };
                            if !sent {
                                break;
                            }
                            // acknowledged?
                            loop {
                                let mut st = sh.m.lock().unwrap();
                                let before = st.answers.len();
                                st.answers.retain(|e| !matches!(&e.pkt, SPkt::SubAck(i, _) | SPkt::UnsubAck(i) if *i == pid));
                                if st.answers.len() < before {
                                    break;
                                }
                                if st.closed.is_some() || stop.load(SeqCst) {
                                    break 'outer;
                                }
                                let _ = sh.cv.wait_timeout(st, Duration::from_millis(20)).unwrap();
                            }
                            let mut m = acked.lock().unwrap();
                            m.maybe.remove(&f);
                            if !out {
                                m.held.insert(f, q);
                            }
                        }
                    }
                    Pipelining => {
                        // one request right behind the other, all the time
                        {
                            let mut m = acked.lock().unwrap();
                            for i in 0..4 {
                                m.maybe.insert(format!("{}/s{}", base, i));
                            }
                        }
                        while !stop.load(SeqCst) {
                            let mut b = vec![];
                            for i in 0..200u16 {
                                let f = format!("{}/s{}", base, rng.below(4));
                                if rng.pct(15) {
                                    b.extend(unsubscribe(21000 + i, &[&f]));
                                } else {
                                    b.extend(subscribe(21000 + i, &[(&f, rng.below(3) as u8)]));
                                }
                            }
                            if !put(&b) {
                                break;
                            }
                        }
                    }
                    Disconnecting => {
                        std::thread::sleep(Duration::from_micros(rng.below(600) as u64));
                        put(&disconnect());
                    }
                    Aborting => {
                        std::thread::sleep(Duration::from_micros(rng.below(600) as u64));
                        crate::sys::abort(std::os::fd::AsRawFd::as_raw_fd(&*sock));
                    }
                    HalfClosing => {
                        std::thread::sleep(Duration::from_micros(rng.below(600) as u64));
                        let _ = sock.shutdown(std::net::Shutdown::Write);
                    }
                    Misbehaving => {
                        std::thread::sleep(Duration::from_micros(rng.below(600) as u64));
                        put(&[0xf0, 0]);
                    }
                }
            })
        };
        if doing == MidPacket {
            let _ = th.is_finished();
        }
        std::thread::sleep(delay);
        // ---- the new connections
        let mut news: Vec<Client> = vec![];
        let cn = Connect::new(&id).clean(new_clean).varied(rng.next()).build();
        if k == 1 {
            let c = Client::open(env.addr, &id, &so)?;
            c.send(&cn)?;
            let sp = c.expect_connack().map_err(|f| ctxt(f))?;
            if sp != (!clean && !new_clean) {
                return c.bad(format!("{}: session present is {}", story, sp));
            }
            news.push(c);
        } else {
            for _ in 0..k {
                news.push(Client::open(env.addr, &id, &so)?);
            }
            for c in &news {
                let _ = c.try_send(&cn);
            }
        }
        // ---- what the old connection still does
        let mut late = vec![];
        if k == 1 && matches!(doing, Idle | Stalled | Pinging | Flooding) && rng.pct(70) {
            let f = format!("{}/late", base);
            let mut s = subscribe(555, &[(f.clone(), 1)]);
            s.extend(unsubscribe(556, &[format!("{}/new", base), a.clone(), bb.clone()]));
            if rng.pct(50) {
                s.extend(disconnect());
            }
            let _ = old.try_send(&s);
            late.push(f);
        }
        stop.store(true, SeqCst);
        // nothing of it may be left; the others must be closed
        let survivor;
        if k == 1 {
            if stalled.is_none() {
                if !matches!(doing, Aborting) {
                    old.expect_closed(WAIT).map_err(|f| ctxt(f).ctx("the older connection was not closed"))?;
                }
            } else if !wait_sockets(b, base_sockets) {
                return Err(silence(old.fail(format!("{}: the older connection, which does not read, is still open in the broker", story))));
            }
            let _ = th.join();
            survivor = news.pop().unwrap();
        } else {
            if stalled.is_some() {
                if !wait_sockets(b, base_sockets) {
                    return Err(silence(old.fail(format!("{}: more than one connection is still open in the broker", story))));
                }
            } else if doing != Aborting {
                old.expect_closed(WAIT).map_err(|f| ctxt(f).ctx("the older connection was not closed"))?;
            }
            let _ = th.join();
            let end = Instant::now() + WAIT;
            loop {
                let open = news.iter().filter(|c| !c.is_closed()).count();
                if open == 1 {
                    break;
                }
                if open == 0 {
                    return news[0].bad(format!("{}: every one of the {} simultaneous connections was closed", story, k));
                }
                if Instant::now() > end {
                    return Err(silence(news[0].fail(format!("{}: {} of {} simultaneous connections with one identifier stay open", story, open, k))));
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            let i = news.iter().position(|c| !c.is_closed()).unwrap();
            survivor = news.swap_remove(i);
            let sp = survivor.expect_connack().map_err(|f| ctxt(f))?;
            if sp && new_clean {
                return survivor.bad(format!("{}: session present on a clean session", story));
            }
            ended.append(&mut news);
        }
        // ---- what the session should hold now
        {
            let ac = acked.lock().unwrap();
            for (f, q) in &ac.held {
                m.maybe.remove(f);
                m.held.insert(f.clone(), *q);
            }
            for f in &ac.maybe {
                m.held.remove(f);
                m.maybe.insert(f.clone());
            }
            // given up, acknowledged
            for i in 0..4 {
                let f = format!("{}/s{}", base, i);
                if !ac.held.contains_key(&f) && !ac.maybe.contains(&f) && doing == Subscribing {
                    // untouched in this step, or unsubscribed: tell by the thread's record only
                    m.maybe.insert(f.clone());
                    m.held.remove(&f);
                }
            }
        }
        let mut extra: Vec<String> = m.held.keys().chain(m.maybe.iter()).cloned().collect();
        extra.extend(late);
        if clean || new_clean {
            m = Model::default();
        }
        works(env, &survivor, &mut m, &base, &extra).map_err(|f| ctxt(f))?;
        if rng.pct(60) {
            std::thread::sleep(Duration::from_millis(*rng.pick(&[1, 5, 30])));
            works(env, &survivor, &mut m, &base, &extra).map_err(|f| ctxt(f).ctx("a little later"))?;
        }
        if survivor.is_closed() {
            return survivor.bad(format!("{}: the newest connection was closed", story));
        }
        ctx.eval(Some(hash(format!("{:?} {} {} {} {:?} {}", doing, k, clean, new_clean, delay, step).as_bytes()) ^ r));
        ctx.count(&format!("while_{:?}", doing), 1);
        ctx.count(if k == 1 { "single_takeovers" } else { "simultaneous_takeovers" }, 1);
        clean = new_clean;
        ended.push(std::mem::replace(&mut old, survivor));
    }
    ctx.sample(|| story.clone());
    old.send(&disconnect())?;
    old.expect_closed(WAIT)?;
    if !clean {
        let c = Client::simple(env.addr, &id)?;
        c.send(&disconnect())?;
    }
    Ok(())
}

/// Empty identifiers, and identifiers that only look alike
fn distinct(ctx: &Ctx, env: &Env, r: u64, rng: &mut Rng) -> Res<()> {
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let n = rng.range(2, 8);
    let mut ids: Vec<String> = (0..n).map(|_| String::new()).collect();
    if rng.pct(60) {
        let b = format!("Same{}", r);
        ids.extend([b.clone(), b.to_lowercase(), b.to_uppercase(), format!("{} ", b), format!(" {}", b), format!("{}x", b), format!("{}/x", b), format!("{}é", b), format!("{}e\u{301}", b)]);
        rng.shuffle(&mut ids);
    }
    if rng.pct(60) {
        // one character more, or another one, anywhere in a text of any length
        const CHARS: &[char] = &['/', '\\', ' ', '\t', '-', '_', '.', ':', ';', ',', '#', '+', '$', '@', '%', '*', '?', '\u{1}', '\u{7f}', '"', '\'', '0', 'é', 'É', '\u{200b}', '\u{301}', '猫', '\u{1f600}', '{', '|', '~'];
        let n = *rng.pick(&[1, 5, 22, 23, 30, 64, 130, 260, 1030, 5000, 60000]);
        let base: Vec<char> = format!("Q{}", "aBc-".repeat(n / 4 + 1)).chars().take(n).collect();
        let mut more = vec![base.iter().collect::<String>()];
        for _ in 0..rng.range(2, 10) {
            let mut v = base.clone();
            let at = *rng.pick(&[0, v.len() / 2, v.len() - 1, v.len()]);
            let c = *rng.pick(CHARS);
            if rng.pct(75) || at == v.len() {
                v.insert(at, c);
            } else {
                v[at] = c;
            }
            let t = v.into_iter().collect();
            if !more.contains(&t) {
                more.push(t);
            }
        }
        ids.extend(more.into_iter().map(|t| format!("{}{}", t, r)).filter(|t| t.len() < 65536));
        if rng.pct(50) {
            let k = ids.len();
            // the difference at the very end
            ids[k - 1] = ids[k - 1].trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
            let last = ids[k - 1].clone();
            for c in [rng.pick(CHARS), rng.pick(CHARS)] {
                let t = format!("{}{}", last, c);
                if !ids.contains(&t) && !last.is_empty() {
                    ids.push(t);
                }
            }
        }
        rng.shuffle(&mut ids);
        let mut seen = std::collections::HashSet::new();
        ids.retain(|t| t.is_empty() || seen.insert(t.clone()));
    }
    let mut cs = vec![];
    for id in &ids {
        let c = Client::open(env.addr, &format!("{:?}", id), &so)?;
        c.send(&Connect::new(id).varied(rng.next()).build())?;
        cs.push(c);
    }
    for (i, c) in cs.iter().enumerate() {
        if c.expect_connack()? {
            return c.bad("session present on a clean session".into());
        }
        c.sub(&[(format!("e/{}/{}", r, i), 1), (format!("e/{}/all", r), 2)])?;
    }
    for round in 0..2 {
        let all = env.body("all");
        env.p.publish(format!("e/{}/all", r), &all, 1)?;
        for (i, c) in cs.iter().enumerate() {
            let b = env.body("one");
            env.p.publish(format!("e/{}/{}", r, i), &b, 1)?;
            let got = c.messages_until(&b)?;
            if got.len() != 1 || got[0].msg().payload != all {
                return c.bad(format!("number {} of {:?}: before {} it should have received {} only, not {:?}", i, ids, show(&b), show(&all), got.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()));
            }
            c.ping()?;
        }
        if round == 0 {
            // some leave; the others are not touched
            let k = rng.below(cs.len());
            let c = cs.remove(k);
            ids.remove(k);
            c.send(&disconnect())?;
            c.expect_closed(WAIT)?;
            let _ = cs.iter().map(|c| c.ping()).collect::<Res<Vec<_>>>()?;
            for (i, c) in cs.iter().enumerate().skip(k) {
                c.unsub(&[format!("e/{}/{}", r, i + 1)])?;
                c.sub(&[(format!("e/{}/{}", r, i), 1)])?;
            }
        }
    }
    env.p.settle(0)?;
    ctx.count("distinct_identity_groups", 1);
    ctx.eval(Some(hash(format!("{:?}", ids).as_bytes()) ^ r << 8));
    Ok(())
}

/// A thousand clients without an identifier at once: none of them displaces another
fn crowd(ctx: &Ctx, env: &Env, r: u64, rng: &mut Rng) -> Res<()> {
    let n = ctx.n(1200, 5000);
    let so = SockOpts { auto_ack: true, ..Default::default() };
    let mut cs = vec![];
    while cs.len() < n {
        let k = rng.range(1, 120);
        let from = cs.len();
        for _ in 0..k {
            let c = Client::open(env.addr, "anonymous", &so)?;
            c.send(&Connect::new("").varied(rng.next()).build())?;
            cs.push(c);
        }
        for (i, c) in cs.iter().enumerate().skip(from) {
            if c.expect_connack()? {
                return c.bad("session present on a clean session".into());
            }
            c.send(&subscribe(1, &[(format!("w/{}/{}", r, i), 1), (format!("w/{}/all", r), 1)]))?;
        }
        for c in &cs[from..] {
            c.answer()?;
        }
    }
    let all = env.body("all");
    env.p.publish(format!("w/{}/all", r), &all, 1)?;
    for i in 0..cs.len() {
        env.p.publish(format!("w/{}/{}", r, i), format!("{}", i).as_bytes(), 0)?;
    }
    for (i, c) in cs.iter().enumerate() {
        let got = c.messages_until(format!("{}", i).as_bytes()).map_err(|f| f.ctx(&format!("anonymous client {} of {}", i, n)))?;
        if got.len() != 1 || got[0].msg().payload != all {
            return c.bad(format!("anonymous client {} of {}: received {:?} before its own message", i, n, got.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()));
        }
        c.ping().map_err(|f| f.ctx(&format!("anonymous client {} of {}", i, n)))?;
        ctx.eval(Some(hash(format!("crowd {} {}", r, i).as_bytes())));
    }
    env.p.settle(0)?;
    ctx.max("most_anonymous_clients_at_once", cs.len() as u64);
    Ok(())
}

/// A takeover `gap` connections later: the connections in between never say anything
fn far_apart(ctx: &Ctx, w: &mut Worker, r: u64, gap: u64, rng: &mut Rng) -> Res<()> {
    use std::os::fd::AsRawFd;
    w.restart();
    let b: &Broker = w.broker(&Opts::default())?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(b.addr, &Connect::new("far-p").keepalive(0), &so)?;
    for clean in [true, false] {
        let id = format!("far{}-{}", r, clean);
        let old = Client::connect(b.addr, &Connect::new(&id).clean(clean).keepalive(0), &so)?;
        old.sub(&[(format!("far/{}", clean), 1)])?;
        let mut residents = vec![];
        for i in 0..24 {
            let c = Client::connect(b.addr, &Connect::new(&format!("res{}-{}", clean, i)).keepalive(0), &so)?;
            c.sub(&[("far/all".to_string(), 1)])?;
            residents.push(c);
        }
        let from = b.ctl.accepts.load(SeqCst);
        let t0 = Instant::now();
        if !clean {
            // connections that become clients, so that sessions are counted as well
            let n = std::sync::atomic::AtomicU64::new(1);
            let bad = std::sync::Mutex::new(None);
            std::thread::scope(|s| {
                for _ in 0..6 {
                    s.spawn(|| loop {
                        let i = n.fetch_add(1, SeqCst);
                        if i >= gap - 24 || bad.lock().unwrap().is_some() {
                            return;
                        }
                        let run = || -> std::io::Result<()> {
                            use std::io::{Read, Write};
                            let mut s = std::net::TcpStream::connect(b.addr)?;
                            s.set_read_timeout(Some(WAIT))?;
                            s.write_all(&Connect::new(&format!("fill{}", i)).build())?;
                            s.read_exact(&mut [0u8; 4])?;
                            crate::sys::set_linger0(s.as_raw_fd());
                            Ok(())
                        };
                        if let Err(e) = run() {
                            *bad.lock().unwrap() = Some(format!("connection {} of {}: {}", i, gap, e));
                        }
                    });
                }
            });
            if let Some(e) = bad.into_inner().unwrap() {
                return Err(Fail::Inc(e));
            }
        }
        for i in 1..if clean { gap - 24 } else { 1 } {
            let s = std::net::TcpStream::connect(b.addr).map_err(|e| Fail::Inc(format!("connection {} of {}: {}", i, gap, e)))?;
            crate::sys::set_linger0(s.as_raw_fd());
            drop(s);
            while i % 200 == 199 && b.ctl.accepts.load(SeqCst) < from + i {
                if t0.elapsed() > Duration::from_secs(120) {
                    return Err(Fail::Inc("too slow for so many connections".into()));
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        while b.ctl.accepts.load(SeqCst) < from + gap - 25 {
            if t0.elapsed() > Duration::from_secs(120) {
                return Err(Fail::Inc("too slow for so many connections".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        std::thread::sleep(Duration::from_millis(100));
        let told = |f: Fail| f.ctx(&format!("takeover {} connections later, clean {}", gap, clean));
        let (new, sp) = Client::connect_sp(b.addr, &Connect::new(&id).clean(clean).keepalive(0), &so).map_err(told)?;
        if sp != !clean {
            return Err(told(new.fail(format!("CONNACK says session present {}", sp))));
        }
        old.expect_closed(WAIT).map_err(told)?;
        if clean {
            new.sub(&[(format!("far/{}", clean), 1)]).map_err(told)?;
        }
        new.sub(&[("far/more".to_string(), 1)]).map_err(told)?;
        for pause in [0, 50, 200] {
            std::thread::sleep(Duration::from_millis(pause));
            new.ping().map_err(told)?;
            p.publish(format!("far/{}", clean), b"one", 1)?;
            p.publish("far/more", b"two", rng.below(3) as u8)?;
            let got = new.messages_until(b"two").map_err(told)?;
            if got.len() != 1 || got[0].msg().payload != b"one" {
                return Err(told(new.fail(format!("received {:?}", got.iter().map(|e| e.msg().brief()).collect::<Vec<_>>()))));
            }
        }
        let mut all = residents;
        for i in 0..80 {
            let c = Client::connect(b.addr, &Connect::new(&format!("come{}-{}", clean, i)).keepalive(0), &so).map_err(told)?;
            c.sub(&[("far/all".to_string(), 1)]).map_err(told)?;
            all.push(c);
        }
        p.publish("far/all", b"all", 1)?;
        for c in &all {
            let got = c.messages_until(b"all").map_err(told)?;
            if !got.is_empty() {
                return Err(told(c.fail(format!("received {} more messages for one", got.len()))));
            }
            c.ping().map_err(told)?;
        }
        ctx.count("clients_beside_ones_65536_connections_later", all.len() as u64);
        ctx.eval(Some(hash(format!("far {} {}", gap, clean).as_bytes())));
        new.send(&disconnect())?;
        new.expect_closed(WAIT)?;
    }
    ctx.max("connections_between_old_and_new", gap);
    w.restart();
    Ok(())
}

/// The old connection has not read for so long that the broker holds all it can for it
fn full(ctx: &Ctx, b: &Broker, env: &Env, r: u64, rng: &mut Rng) -> Res<()> {
    for clean in [false, true] {
        let id = format!("full{}-{}-{}", r, clean, rng.below(1 << 30));
        let base = format!("t/{}", id);
        let base_sockets = b.sockets();
        let so = SockOpts { rcvbuf: Some(4096), paused: true, ..Default::default() };
        let old = Client::connect(env.addr, &Connect::new(&id).clean(clean), &so)?;
        let t = format!("{}/a", base);
        old.send(&subscribe(1, &[(t.clone(), (r % 2) as u8)]))?;
        std::thread::sleep(Duration::from_millis(100));
        let burst = publish(t.as_bytes(), b"full", 0, 0, false, false).repeat(1000);
        let n = rng.range(115, 140);
        for _ in 0..n {
            env.p.send(&burst)?;
        }
        env.p.ping()?;
        let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
        let new = Client::connect(env.addr, &Connect::new(&id).clean(clean), &so)?;
        if !wait_sockets(b, base_sockets + 1) {
            return Err(silence(old.fail(format!("{} (clean {}): with {}000 messages waiting for it the older connection is still open in the broker", id, clean, n))));
        }
        old.pause(false);
        old.expect_closed(WAIT).map_err(|f| f.ctx("the older connection, with very many messages waiting for it"))?;
        let mut m = Model::default();
        let mut extra = vec![];
        if clean {
            extra.push(t);
        } else {
            m.held.insert(t, (r % 2) as u8);
        }
        works(env, &new, &mut m, &base, &extra)?;
        ctx.eval(Some(hash(format!("full {} {}", clean, r).as_bytes())));
        ctx.count("takeovers_with_a_full_queue", 1);
        new.send(&disconnect())?;
        new.expect_closed(WAIT)?;
        if !clean {
            Client::simple(env.addr, &id)?.send(&disconnect())?;
        }
    }
    Ok(())
}

fn round(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r == 1 {
        return far_apart(ctx, w, r, 65536, rng);
    }
    if r % 8 == 7 {
        w.restart();
    }
    let pre = [None, Some((2000, 300)), Some((20000, 60)), Some((500, 3000))][(r / 8 % 4) as usize];
    let b: &Broker = w.broker(&Opts { preempt: pre, sndbuf: Some(16 * 1024), ..Default::default() })?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let env = Env {
        addr: b.addr,
        p: Client::connect(b.addr, &Connect::new(&format!("p{}", r)), &so)?,
        o: Client::connect(b.addr, &Connect::new(&format!("o{}", r)), &so)?,
        n: 0.into(),
    };
    env.o.sub(&[("o/#", 1)])?;
    if r == 0 || r % 150 == 149 {
        crowd(ctx, &env, r, rng)?;
    }
    if r % 100 == 2 {
        full(ctx, b, &env, r, rng)?;
    }
    for i in 0..6 {
        takeover(ctx, b, &env, r * 100 + i, rng)?;
    }
    distinct(ctx, &env, r, rng)
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one takeover of a client identifier (or one group of clients with empty or similar identifiers; or one of more than a thousand
         anonymous clients).
         The old connection is idle, inside a packet, not reading, flooding, subscribing, subscribing in pipelines, pinging, or ends itself in
         one of four ways at that moment; one new connection or 2-4 simultaneous ones; clean or persistent on either
         side; chains of up to three. Checked: the old connection is closed (for one that does not read: the broker's
         descriptors), exactly one new one stays, its session holds exactly the right filters at the right QoS, it
         subscribes, publishes, receives and is answered, at once and a little later, and what the old connection
         sends afterwards changes nothing. One takeover of either kind happens exactly 65536 connections after the first, some of a
         connection for which the broker holds more than 100000 messages, some of connections that never subscribed. Distinct by kind, delay and round. Injected preemption in most rounds.",
    );
    rounds(ctx, 6, ctx.secs(25, 420), 24, round);
}

//! What a client costs the broker.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::time::{Duration, Instant};

fn vm_kb(b: &Broker, key: &str) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/status", b.pid))
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with(key)).and_then(|l| l.split_whitespace().nth(1).and_then(|x| x.parse().ok())))
        .unwrap_or(0)
}

/// Announcing much and sending little
fn announce(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let so = SockOpts::default();
    let n = 60;
    // threads and arenas of the allocator first
    let mut warm = vec![];
    for i in 0..n {
        warm.push(Client::simple(b.addr, &format!("warm{}", i))?);
    }
    for c in &warm {
        c.ping()?;
    }
    drop(warm);
    let canary = Client::connect(b.addr, &Connect::new("canary"), &SockOpts { auto_ack: true, auto_pub: true, ..Default::default() })?;
    canary.sub(&[("canary", 1)])?;
    std::thread::sleep(Duration::from_millis(100));
    let (rss, vm) = (vm_kb(&b, "VmRSS"), vm_kb(&b, "VmSize"));
    let mut open = vec![];
    let mut sent = 0usize;
    for i in 0..n {
        let first = *rng.pick(&[0x30u8, 0x32, 0x34, 0x82, 0xa2, 0x10]);
        let len = *rng.pick(&[268_435_455usize, 268_435_455, 100_000_000, 200_000_000]);
        let c = Client::open(b.addr, &format!("a{}", i), &so)?;
        let mut bytes = vec![];
        if first != 0x10 {
            bytes.extend(Connect::new(&format!("a{}-{}", r, i)).build());
        }
        bytes.push(first);
        bytes.extend(rem_len(len));
        let k = *rng.pick(&[0usize, 1, 100, 9000]);
        // what is sent starts like such a packet
        let mut body = vec![0, 4];
        body.extend_from_slice(if first == 0x10 { b"MQTT\x04\x02" } else { b"t/x/" });
        body.resize(8 + k, b'x');
        bytes.extend(body);
        sent += bytes.len();
        let _ = c.try_send(&bytes);
        open.push(c);
    }
    let mut most = (0, 0);
    for k in 0..8 {
        canary.publish("canary", format!("{}", k).as_bytes(), 1)?;
        canary.messages_until(format!("{}", k).as_bytes())?;
        std::thread::sleep(Duration::from_millis(60));
        most = (most.0.max(vm_kb(&b, "VmRSS").saturating_sub(rss)), most.1.max(vm_kb(&b, "VmSize").saturating_sub(vm)));
    }
    ctx.eval(Some(hash(format!("announce {} {}", r, sent).as_bytes())));
    ctx.count("connections_announcing", n as u64);
    ctx.max("rss_growth_after_announcements_kb", most.0);
    ctx.max("address_space_growth_after_announcements_kb", most.1);
    if most.0 > 150_000 {
        viol!("{} connections announced packets of up to 256 MB and sent {} bytes: the broker's memory grew by {} kB", n, sent, most.0);
    }
    // 60 x 256 MB are 15 GB
    if most.1 > 4_000_000 {
        viol!("{} connections announced packets of up to 256 MB and sent {} bytes: the broker's address space grew by {} kB", n, sent, most.1);
    }
    Ok(())
}

/// CPU time the broker spends on `total` bytes in PUBLISH packets of `size`
fn cpu(b: &Broker, c: &Client, size: usize, total: usize, seg: usize) -> Res<(u64, usize)> {
    let t0 = b.cpu_ms();
    let p = publish(b"cpu/nobody", &vec![b'x'; size], 0, 0, false, false);
    let mut n = 0;
    while n < total {
        for part in p.chunks(seg) {
            c.send(part)?;
        }
        n += p.len();
    }
    c.ping()?;
    Ok((b.cpu_ms() - t0, n))
}

/// A packet costs in proportion to its length
fn length(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let c = Client::connect(b.addr, &Connect::new("long"), &SockOpts::default())?;
    let big = *rng.pick(&[24, 32, 48]) * 1_000_000;
    let seg = *rng.pick(&[1460usize, 8192, 65536]);
    let small = cpu(&b, &c, 20_000, big, seg)?;
    let large = cpu(&b, &c, big, big, seg)?;
    ctx.eval(Some(hash(format!("length {} {} {}", r, big, seg).as_bytes())));
    ctx.count("long_packets", 1);
    ctx.max("cpu_ms_in_20_kB_packets", small.0);
    ctx.max("cpu_ms_in_one_packet", large.0);
    ctx.sample(|| format!("{} bytes in segments of {}: {} ms in packets of 20 kB, {} ms in one", big, seg, small.0, large.0));
    if large.0 > 2000 + 15 * small.0 {
        viol!("{} bytes in packets of 20000 bytes cost the broker {} ms of CPU time, in one packet {} ms (segments of {})", big, small.0, large.0, seg);
    }
    Ok(())
}

/// Subscribe to very many filters; stops early where that takes too long to be of use
fn spread(c: &Client, n: usize, mut f: impl FnMut(usize) -> (String, u8)) -> Res<usize> {
    let t = Instant::now();
    let mut k = 0;
    while k < n && t.elapsed() < Duration::from_secs(20) {
        c.sub(&(k..k + 500).map(&mut f).collect::<Vec<_>>())?;
        k += 500;
    }
    Ok(k)
}

/// Subscriptions that have nothing to do with a message do not make it more expensive
fn routing(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let c = Client::connect(b.addr, &Connect::new("many"), &so)?;
    let p = Client::connect(b.addr, &Connect::new("p"), &so)?;
    let mine = Client::connect(b.addr, &Connect::new("s"), &so)?;
    mine.sub(&[("hit/+/x", 0)])?;
    let n = ctx.n(4000, 20000);
    let run = |k: usize| -> Res<u64> {
        let t = b.cpu_ms();
        let bytes = publish(b"hit/me/x", b"y", 0, 0, false, false).repeat(500);
        for i in 0..n / 500 {
            p.send(&bytes)?;
            if i % 2 == 1 {
                p.ping()?;
            }
        }
        p.publish("hit/me/x", format!("end{}", k).as_bytes(), 0)?;
        let got = mine.messages_until(format!("end{}", k).as_bytes())?.len();
        if got != n {
            return mine.bad(format!("{} of {} messages", got, n));
        }
        Ok(b.cpu_ms() - t)
    };
    let before = run(0)?;
    let (filters, kind) = (ctx.n(60_000, 200_000), rng.below(3));
    let filters = spread(&c, filters, |k| {
        let f = match kind {
            0 => format!("other/{}", k),
            1 => format!("o{}/+/x", k),
            _ => format!("hit{}/{}/{}", k % 50, k % 1000, k),
        };
        (f, 0)
    })?;
    // and as many sessions of clients that are away
    let sessions = ctx.n(5000, 20_000);
    let started = Instant::now();
    for part in (0..sessions).step_by(100) {
        let mut cs = vec![];
        for i in part..part + 100 {
            let id = format!("away{}", i);
            let x = Client::open(b.addr, &id, &SockOpts::default())?;
            let mut bytes = Connect::new(&id).clean(false).build();
            bytes.extend(subscribe(1, &[(format!("away/{}", i), 1)]));
            bytes.extend(disconnect());
            x.send(&bytes)?;
            cs.push(x);
        }
        for x in cs {
            x.expect_closed(WAIT)?;
        }
        ctx.max("sessions_of_absent_clients", part as u64 + 100);
        if started.elapsed() > Duration::from_secs(20) {
            break;
        }
    }
    let limit = 400 + 4 * before;
    let mut after = run(1)?;
    if after > limit {
        after = after.min(run(2)?);
    }
    ctx.eval(Some(hash(format!("routing {} {} {}", r, n, kind).as_bytes())));
    ctx.max("filters_registered", filters as u64);
    ctx.max("cpu_ms_few_filters", before);
    ctx.max("cpu_ms_many_filters", after);
    ctx.sample(|| format!("{} messages: {} ms of CPU time, with {} unrelated filters {} ms", n, before, filters, after));
    if after > limit {
        viol!("{} messages cost the broker {} ms of CPU time, and with {} unrelated filters {} ms", n, before, filters, after);
    }
    Ok(())
}

/// Subscribing costs no more for a client that has many subscriptions, nor leaving because others have
fn filters(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let c = Client::connect(b.addr, &Connect::new("collects").clean(rng.pct(50)), &so)?;
    let k = ctx.n(6000, 12_000);
    let parts = ctx.n(20, 40);
    let mut name = 0;
    // all beside each other, below a hundred parents, or each below one of its own
    let shape = r / 7 % 3;
    let filter = |k: usize| match shape {
        0 => format!("c/{}", k),
        1 => format!("c/{}/{}", k % 100, k),
        _ => format!("c{}/+/x", k),
    };
    let mut more = |un: bool| -> Res<u64> {
        let t = b.cpu_ms();
        let from = name;
        for _ in 0..k / 500 {
            let f: Vec<(String, u8)> = (0..500).map(|i| (filter(name + i), ((name + i) % 3) as u8)).collect();
            name += 500;
            c.sub(&f)?;
        }
        if un {
            for n in (from..name).step_by(500) {
                c.unsub(&(n..n + 500).map(filter).collect::<Vec<_>>())?;
            }
        }
        Ok(b.cpu_ms() - t)
    };
    // many leave at once
    let leave = |tag: &str| -> Res<u64> {
        let n = 600;
        let mut cs = vec![];
        for i in 0..n {
            let x = Client::open(b.addr, tag, &so)?;
            x.send(&[Connect::new(&format!("{}{}", tag, i)).build(), subscribe(1, &[(format!("mine/{}", i), 1)])].concat())?;
            cs.push(x);
        }
        for x in &cs {
            x.expect_connack()?;
            x.answer()?;
        }
        let t = b.cpu_ms();
        for x in &cs {
            x.send(&disconnect())?;
        }
        for x in &cs {
            x.expect_closed(WAIT)?;
        }
        // and the broker has done with the last of them
        c.unsub(&["nothing/of/it"])?;
        Ok(b.cpu_ms() - t)
    };
    let left0 = leave("early")?;
    let first = more(true)?;
    let limit = 250 + 4 * first;
    let mut held = k;
    for _ in 0..parts {
        held += k;
        // long enough already
        if more(false)? > 2 * limit {
            break;
        }
    }
    let mut last = more(true)?;
    if last > limit {
        last = last.min(more(true)?);
    }
    ctx.eval(Some(hash(format!("filters {} {}", r, held).as_bytes())));
    ctx.max("cpu_ms_subscribing_first", first);
    ctx.max("cpu_ms_subscribing_with_many", last);
    if last > limit {
        viol!("{} filters subscribed and unsubscribed cost the broker {} ms of CPU time, and {} ms for a client that has {} others", k, first, last, held);
    }
    let limit = 120 + 3 * left0;
    let mut left1 = leave("late")?;
    if left1 > limit {
        left1 = left1.min(leave("latest")?);
    }
    ctx.max("cpu_ms_600_leaving_first", left0);
    ctx.max("cpu_ms_600_leaving_with_many_filters", left1);
    ctx.sample(|| format!("{} filters: {} ms of CPU time, with {} others {} ms; 600 leave: {} ms and {} ms", k, first, held, last, left0, left1));
    if left1 > limit {
        viol!("600 clients that leave cost the broker {} ms of CPU time, and {} ms when another has {} subscriptions", left0, left1, held);
    }
    Ok(())
}

/// Connections that have nothing to do with a message, likewise
fn bystanders(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let p = Client::connect(b.addr, &Connect::new("p"), &so)?;
    let mine = Client::connect(b.addr, &Connect::new("s"), &so)?;
    mine.sub(&[("hit", 1)])?;
    let n = ctx.n(1500, 5000);
    let run = |k: usize| -> Res<u64> {
        let t = b.cpu_ms();
        for i in 0..n {
            p.publish("hit", format!("{} {}", k, i).as_bytes(), 1)?;
            p.settle(20)?;
        }
        mine.messages_until(format!("{} {}", k, n - 1).as_bytes())?;
        Ok(b.cpu_ms() - t)
    };
    let before = run(0)?;
    let idle = ctx.n(500, 3000);
    let mut cs = vec![];
    for i in 0..idle {
        let c = Client::simple(b.addr, &format!("idle{}", i))?;
        if rng.pct(50) {
            c.sub(&[(format!("idle/{}", i), 1)])?;
        }
        cs.push(c);
    }
    let quiet = b.cpu_ms();
    std::thread::sleep(Duration::from_millis(500));
    let quiet = b.cpu_ms() - quiet;
    let limit = 600 + 4 * before;
    let mut after = run(1)?;
    if after > limit {
        after = after.min(run(2)?);
    }
    ctx.eval(Some(hash(format!("bystanders {} {}", r, idle).as_bytes())));
    ctx.max("idle_connections", idle as u64);
    ctx.max("cpu_ms_while_all_are_idle", quiet);
    if quiet > 250 {
        viol!("{} idle connections cost the broker {} ms of CPU time in half a second", idle, quiet);
    }
    if after > limit {
        viol!("{} messages cost the broker {} ms of CPU time, and with {} idle connections {} ms", n, before, idle, after);
    }
    Ok(())
}

/// Coming, subscribing, taking over and going do not cost more because others have done so
fn comings(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let so = SockOpts { auto_ack: true, auto_pub: true, ..Default::default() };
    let n = ctx.n(120, 400);
    let run = |k: usize| -> Res<u64> {
        let t = b.cpu_ms();
        let mut held = None;
        for i in 0..n {
            let persistent = i % 2 == 1;
            let id = if persistent { "comes-back".to_string() } else { format!("c{}-{}", k, i) };
            let c = Client::connect(b.addr, &Connect::new(&id).clean(!persistent), &so)?;
            c.sub(&[(format!("mine/{}", i % 9), 1), ("mine/+/x".to_string(), 2)])?;
            c.unsub(&[format!("mine/{}", i % 9)])?;
            c.ping()?;
            match i % 3 {
                0 => {
                    c.send(&disconnect())?;
                    c.expect_closed(WAIT)?;
                }
                1 => c.abort(),
                // stays until the next one takes over
                _ => held = Some(c),
            }
        }
        drop(held);
        Ok(b.cpu_ms() - t)
    };
    let before = run(0)?;
    // others: connected ones, ones that are away, and one with very many filters
    let others = ctx.n(300, 1500);
    let mut cs = vec![];
    for i in 0..others {
        let c = Client::connect(b.addr, &Connect::new(&format!("other{}", i)).clean(i % 2 == 0), &so)?;
        c.sub(&[(format!("other/{}", i), 1), (format!("other/{}/+", i), 0)])?;
        if i % 2 == 0 {
            cs.push(c);
        } else {
            c.send(&disconnect())?;
            c.expect_closed(WAIT)?;
        }
    }
    let c = Client::connect(b.addr, &Connect::new("many").clean(false), &so)?;
    let (filters, kind) = (ctx.n(50_000, 200_000), rng.below(3));
    let filters = spread(&c, filters, |k| (if kind == 0 { format!("other/{}", k) } else { format!("other{}/{}/{}", k % 50, k % 1000, k) }, 0))?;
    if kind == 2 {
        c.send(&disconnect())?;
        c.expect_closed(WAIT)?;
    }
    let limit = 300 + 4 * before;
    let mut after = run(1)?;
    if after > limit {
        after = after.min(run(2)?);
    }
    ctx.eval(Some(hash(format!("comings {} {} {}", r, n, kind).as_bytes())));
    ctx.max("cpu_ms_comings_and_goings_alone", before);
    ctx.max("cpu_ms_comings_and_goings_among_many", after);
    ctx.sample(|| format!("{} comings and goings: {} ms of CPU time, with {} other sessions and {} filters {} ms", n, before, others, filters, after));
    if after > limit {
        viol!("{} clients that came, subscribed and left cost the broker {} ms of CPU time, and with {} other sessions and {} unrelated filters {} ms", n, before, others, filters, after);
    }
    Ok(())
}

/// A message costs no more because many others have not been acknowledged yet
fn unacknowledged(ctx: &Ctx, r: u64, rng: &mut Rng) -> Res<()> {
    let b = Broker::start(&Opts::default())?;
    let p = Client::connect(b.addr, &Connect::new("p"), &SockOpts { auto_ack: true, auto_pub: true, ..Default::default() })?;
    let s = Client::connect(b.addr, &Connect::new("s"), &SockOpts::default())?;
    s.sub(&[("un/acked", 1)])?;
    let n = ctx.n(3000, 6000);
    let run = |k: usize, ack: bool| -> Res<u64> {
        let t = b.cpu_ms();
        for i in 0..n / 100 {
            let mut bytes = vec![];
            for j in 0..100 {
                bytes.extend(publish(b"un/acked", format!("{} {}", k, i * 100 + j).as_bytes(), 1, 1 + j as u16, false, false));
            }
            p.send(&bytes)?;
            p.settle(100)?;
        }
        let mut acks = vec![];
        for i in 0..n {
            let e = s.message()?;
            if e.msg().payload != format!("{} {}", k, i).as_bytes() {
                return s.bad(format!("expected message {} of {}, got {}", i, n, e.msg().brief()));
            }
            if ack {
                acks.extend(puback(e.msg().pid));
            }
        }
        s.send(&acks)?;
        s.ping()?;
        Ok(b.cpu_ms() - t)
    };
    let before = run(0, true)?;
    let pending = rng.range(20_000, 50_000) / n;
    for k in 0..pending {
        run(1 + k, false)?;
    }
    let limit = 400 + 4 * before;
    let mut after = run(1 + pending, true)?;
    if after > limit {
        after = after.min(run(2 + pending, true)?);
    }
    ctx.eval(Some(hash(format!("unacknowledged {} {}", r, pending).as_bytes())));
    ctx.max("messages_not_acknowledged", (pending * n) as u64);
    ctx.max("cpu_ms_all_acknowledged", before);
    ctx.max("cpu_ms_many_not_acknowledged", after);
    if after > limit {
        viol!("{} messages cost the broker {} ms of CPU time, and with {} others not acknowledged {} ms", n, before, pending * n, after);
    }
    Ok(())
}

fn round(ctx: &Ctx, _w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    let t = Instant::now();
    let what = ["announce", "length", "routing", "bystanders", "comings", "unacknowledged", "filters"][(r % 7) as usize];
    match r % 7 {
        0 => announce(ctx, r, rng),
        1 => length(ctx, r, rng),
        2 => routing(ctx, r, rng),
        4 => comings(ctx, r, rng),
        5 => unacknowledged(ctx, r, rng),
        6 => filters(ctx, r, rng),
        _ => bystanders(ctx, r, rng),
    }?;
    ctx.max(&format!("longest_{}_ms", what), t.elapsed().as_millis() as u64);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one measurement of what clients cost the broker process. Memory and address space after 60
         connections have announced packets of up to 256 MB each and sent next to nothing; CPU time for 24-48 MB of
         PUBLISH in one packet against the same in packets of 20 kB; CPU time for thousands of messages with tens of
         thousands of unrelated filters, or hundreds of idle connections, against without; the same for a hundred clients that come, subscribe, take over
         and go among hundreds of sessions and tens of thousands of filters, and for messages to a client that has not
         acknowledged tens of thousands of others; for subscribing when the client has a hundred thousand subscriptions already, and for clients that leave then; CPU time of idle
         connections. The limits are factors of 4 and more, plus 0.3 to 2 s, above proportionality. Distinct by round and sizes.",
    );
    rounds(ctx, 4, ctx.secs(18, 240), 14, round);
}

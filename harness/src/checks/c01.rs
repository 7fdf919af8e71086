//! Routing: the set of clients a message reaches is the set whose filters match its topic.
use crate::broker::*;
use crate::client::*;
use crate::codec::*;
use crate::report::*;
use crate::rng::{hash, Rng};
use crate::viol;
use std::collections::{BTreeSet, HashMap};

const LEVELS: &[&str] = &["", "a", "b", "A", "ab", "abc", "$x", "$SYS", "é", "É", "e\u{301}", "ß", "ss", "Σ", "σ", "ς", "日本", "\u{feff}", "\u{a0}", "\u{3000}", "\t", "\n", " ", "a b", "0", "share", "\u{7f}", "x.y", "\\", "*", "%", "'"];

fn level(rng: &mut Rng, small: bool) -> String {
    if small {
        return rng.pick(&["", "a", "b"]).to_string();
    }
    match rng.below(20) {
        // long ones that differ late
        0 => {
            let n = *rng.pick(&[1, 7, 63, 64, 127, 128, 255, 256, 1000, 1024, 4096, 9000]);
            "x".repeat(n) + rng.pick(&["", "a", "b", "x", "xa"])
        }
        1 => "$".to_string() + rng.pick(LEVELS),
        2 => char::from_u32(rng.range(0x20, 0x2fff) as u32).filter(|c| !"+#/".contains(*c)).unwrap_or('q').to_string(),
        _ => rng.pick(LEVELS).to_string(),
    }
}

fn depth(rng: &mut Rng) -> usize {
    match rng.below(30) {
        0 => rng.range(6, 100),
        1 => 100,
        n => 1 + n % 5,
    }
}

pub fn filter(rng: &mut Rng, small: bool) -> String {
    loop {
        let n = depth(rng);
        let mut v: Vec<String> = (0..n).map(|_| if rng.pct(30) { "+".into() } else { level(rng, small) }).collect();
        if rng.pct(30) {
            *v.last_mut().unwrap() = "#".into();
        }
        if rng.pct(6) {
            v.insert(0, rng.pick(&["g", "h", "", "a"]).to_string());
            v.insert(0, "$share".into());
        }
        let s = v.join("/");
        // "$share" with a name behind it is a level like others; without one it is outside the statement
        if !s.is_empty() && (v[0] != "$share" || v.len() > 1 && !["+", "#"].contains(&v[1].as_str())) && v.len() <= 100 && s.len() < 60000 {
            return s;
        }
    }
}

/// A topic that some filter of the list may match, or nearly
pub fn topic(rng: &mut Rng, filters: &[String], small: bool) -> String {
    for _ in 0..50 {
        let mut v: Vec<String> = if rng.pct(75) && !filters.is_empty() {
            let f = rng.pick(filters).clone();
            let mut out = vec![];
            for l in f.split('/') {
                match l {
                    "+" => out.push(level(rng, small)),
                    "#" => {
                        for _ in 0..rng.below(4) {
                            out.push(level(rng, small));
                        }
                    }
                    l => out.push(l.to_string()),
                }
            }
            out
        } else {
            (0..depth(rng)).map(|_| level(rng, small)).collect()
        };
        if rng.pct(35) && !v.is_empty() {
            let i = rng.below(v.len());
            match rng.below(6) {
                0 => v[i] = level(rng, small),
                1 => {
                    v.remove(i);
                }
                2 => v.insert(i, if rng.pct(10) { "$share".to_string() } else { level(rng, small) }),
                3 => v[i].push_str(rng.pick(&["a", " ", "é"])),
                4 => v[i] = v[i].chars().rev().collect(),
                _ => {
                    v[i] = if v[i].chars().any(|c| c.is_lowercase()) { v[i].to_uppercase() } else { v[i].to_lowercase() };
                }
            }
        }
        if v.len() > 100 {
            v.truncate(100);
        }
        let s = v.join("/");
        if !s.is_empty() && s != "$share" && s.len() < 60000 && !s.contains(['+', '#', '\0']) {
            return s;
        }
    }
    "a".into()
}

/// Publish the topics and compare who received what with the reference matcher.
fn judge_topics(
    ctx: &Ctx,
    clients: &[(Client, BTreeSet<String>)],
    publisher: &Client,
    topics: &[String],
    round: u64,
) -> Res<()> {
    for (i, t) in topics.iter().enumerate() {
        publisher.publish(t, format!("m{}", i).as_bytes(), 0)?;
    }
    let end = format!("end{}", round);
    publisher.publish("!end", end.as_bytes(), 0)?;
    for (c, filters) in clients {
        let got = c.messages_until(end.as_bytes())?;
        let mut copies: HashMap<usize, u32> = HashMap::new();
        for e in &got {
            let m = e.msg();
            let Some(i) = std::str::from_utf8(&m.payload).ok().and_then(|s| s.strip_prefix('m')).and_then(|s| s.parse::<usize>().ok()) else {
                return c.bad(format!("received a message nobody sent: {}", m.brief()));
            };
            if topics.get(i).map(|t| t.as_bytes()) != Some(&m.topic[..]) {
                return c.bad(format!("topic of message m{} changed: {}", i, m.brief()));
            }
            *copies.entry(i).or_insert(0) += 1;
        }
        for (i, t) in topics.iter().enumerate() {
            let by: Vec<&String> = filters.iter().filter(|f| matches(f.as_bytes(), t.as_bytes())).collect();
            let n = copies.get(&i).copied().unwrap_or(0);
            ctx.count(if by.is_empty() { "pairs_not_matching" } else { "pairs_matching" }, 1);
            if (n > 0) != !by.is_empty() {
                viol!(
                    "topic {:?} was {} client {} whose filters are {:?} (matching: {:?})",
                    t,
                    if n > 0 { "delivered to" } else { "not delivered to" },
                    c.name,
                    filters,
                    by
                );
            }
        }
    }
    Ok(())
}

fn population(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng) -> Res<()> {
    if r % 8 == 7 {
        w.restart();
    }
    let addr = w.broker(&Opts::default())?.addr;
    let small = rng.pct(50);
    let n = rng.range(2, 8);
    let mut clients = vec![];
    let mut all: Vec<String> = vec![];
    for i in 0..n {
        let c = Client::simple(addr, &format!("s{}-{}", r, i))?;
        c.sub(&[("!end", 0)])?;
        clients.push((c, BTreeSet::new()));
    }
    let publisher = Client::simple(addr, &format!("p{}", r))?;
    // subscribe in random order, now and then give a filter up again
    for _ in 0..rng.range(n, n * 6) {
        let (c, set) = &mut clients[rng.below(n)];
        if rng.pct(12) && !set.is_empty() {
            let v: Vec<String> = set.iter().cloned().collect();
            let f = rng.pick(&v).clone();
            c.unsub(&[&f])?;
            set.remove(&f);
            continue;
        }
        let k = if rng.pct(20) { rng.range(2, 4) } else { 1 };
        let fs: Vec<(String, u8)> = (0..k)
            .map(|_| (if rng.pct(15) && !all.is_empty() { rng.pick(&all).clone() } else { filter(rng, small) }, rng.below(3) as u8))
            .collect();
        c.sub(&fs)?;
        for (f, _) in fs {
            all.push(f.clone());
            set.insert(f);
        }
    }
    let topics: Vec<String> = (0..60).map(|_| topic(rng, &all, small)).collect();
    judge_topics(ctx, &clients, &publisher, &topics, r)?;
    for (c, f) in &clients {
        for t in &topics {
            ctx.eval(Some(hash(format!("{:?}|{}", f, t).as_bytes())));
        }
        ctx.count("subscriber_states", 1);
        ctx.sample(|| format!("client {} with filters {:?}; topics {:?}", c.name, f, &topics[..4]));
    }
    Ok(())
}

/// Every filter of up to three levels over {"", a, b, $s, +, #} against every topic of up to four
/// levels over {"", a, b, $s}; one client per filter, all at once, in a random order.
fn grid(ctx: &Ctx, w: &mut Worker, r: u64, rng: &mut Rng, subset: bool) -> Res<()> {
    w.restart();
    let addr = w.broker(&Opts::default())?.addr;
    let names = ["", "a", "b", "$s"];
    let mut filters: Vec<String> = vec![];
    let mut topics: Vec<String> = vec![];
    let mut cur: Vec<Vec<&str>> = vec![vec![]];
    for d in 1..=4 {
        let mut nx = vec![];
        for p in &cur {
            for l in names.iter().chain(["+", "#"].iter()) {
                if p.last() == Some(&"#") {
                    continue;
                }
                let mut q = p.clone();
                q.push(l);
                let s = q.join("/");
                if !s.is_empty() {
                    if d <= 3 {
                        filters.push(s.clone());
                    }
                    if !s.contains(['+', '#']) {
                        topics.push(s);
                    }
                }
                nx.push(q);
            }
        }
        cur = nx;
    }
    if subset && rng.pct(30) {
        // the same below "$share/NAME", together with the plain ones
        let names = ["$share/g", "$share/h", "$share/"];
        for v in [&mut filters, &mut topics] {
            let more: Vec<String> = names.iter().flat_map(|n| v.iter().map(move |f| format!("{}/{}", n, f))).collect();
            v.extend(more);
            v.extend(names.iter().map(|n| n.to_string()));
        }
    }
    rng.shuffle(&mut filters);
    rng.shuffle(&mut topics);
    if subset {
        filters.truncate(rng.range(3, 30));
        topics.truncate(400);
    }
    let mut clients = vec![];
    for (i, f) in filters.iter().enumerate() {
        let c = Client::simple(addr, &format!("g{}", i))?;
        c.sub(&[(f.as_str(), 0), ("!end", 0)])?;
        clients.push((c, BTreeSet::from([f.clone()])));
    }
    let publisher = Client::simple(addr, &format!("p{}", r))?;
    judge_topics(ctx, &clients, &publisher, &topics, r)?;
    for f in &filters {
        for t in &topics {
            ctx.eval(Some(hash(format!("grid {}|{}|{}", subset, f, t).as_bytes())));
        }
    }
    if !subset {
        ctx.count("grid_filters", filters.len() as u64);
        ctx.count("grid_topics", topics.len() as u64);
    }
    w.restart();
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule(
        "evaluation: one topic against one client's set of filters, delivered or not compared with an independent
         matcher. Rounds: random populations of 2-8 clients with overlapping filters (subscribed and partly given up
         again in random order) and topics derived from them; the complete grid of filters of up to 3 levels over
         {empty,a,b,$s,+,#} against topics of up to 4 levels, one client per filter all registered at once; random
         subsets of that grid, also below $share/NAME; crowds of 700 (thorough: 2500) clients on shared filters, some with 3000 filters, that
         subscribe, unsubscribe, leave and come back. Non-trivial: counted distinct by (filters of the client, topic).",
    );
    ctx.assume("filters and topics of at most 100 levels; behind $share as the first level a second one that is no wildcard");
    rounds(ctx, 8, ctx.secs(22, 400), 16, |ctx, w, r, rng| {
        if r == 0 {
            grid(ctx, w, r, rng, false)
        } else if r % 200 == 1 {
            super::crowd::crowd(ctx, w, r, rng)
        } else if r % 10 == 9 {
            grid(ctx, w, r, rng, true)
        } else {
            population(ctx, w, r, rng)
        }
    });
}

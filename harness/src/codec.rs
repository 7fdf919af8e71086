//! An MQTT 3.1.1 codec of its own, written from the OASIS text: builders for client packets (valid
//! and not), a strict decoder for what a server sends, and a strict judge of client packets.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: Vec<u8>,
    /// zero: none
    pub pid: u16,
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SPkt {
    ConnAck { present: bool, code: u8 },
    Publish(Msg),
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck(u16, Vec<u8>),
    UnsubAck(u16),
    PingResp,
}

impl SPkt {
    pub fn brief(&self) -> String {
        match self {
            SPkt::Publish(m) => m.brief(),
            SPkt::SubAck(id, c) if c.len() > 16 => format!("SubAck({}, {} codes)", id, c.len()),
            x => format!("{:?}", x),
        }
    }
}

impl Msg {
    pub fn brief(&self) -> String {
        format!(
            "Publish(q{} id{}{}{} topic={} payload={})",
            self.qos,
            self.pid,
            if self.dup { " DUP" } else { "" },
            if self.retain { " RETAIN" } else { "" },
            show(&self.topic),
            show(&self.payload)
        )
    }
}

/// Bytes for a human
pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(48).flat_map(|c| (*c as char).escape_default()).collect();
    if b.len() > 48 {
        format!("\"{}\"...[{} bytes, hash {:016x}]", s, b.len(), crate::rng::hash(b))
    } else {
        format!("\"{}\"", s)
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!("...[{} bytes]", b.len()));
    }
    s
}

// ------------------------------------------------------------------ building

pub fn rem_len(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 0x80;
        }
        v.push(b);
        if n == 0 {
            return v;
        }
    }
}

pub fn raw(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(first);
    v.extend(rem_len(body.len()));
    v.extend_from_slice(body);
    v
}

pub fn put_str(v: &mut Vec<u8>, s: &[u8]) {
    assert!(s.len() <= 65535);
    v.extend_from_slice(&(s.len() as u16).to_be_bytes());
    v.extend_from_slice(s);
}

#[derive(Clone, Debug)]
pub struct Connect {
    pub proto: Vec<u8>,
    pub level: u8,
    /// Overrides the computed connect flags
    pub flags: Option<u8>,
    pub keepalive: u16,
    pub id: Vec<u8>,
    pub clean: bool,
    /// topic, message, QoS, retain
    pub will: Option<(Vec<u8>, Vec<u8>, u8, bool)>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
}

impl Connect {
    pub fn new(id: &str) -> Self {
        Connect {
            proto: b"MQTT".to_vec(),
            level: 4,
            flags: None,
            keepalive: 0,
            id: id.as_bytes().to_vec(),
            clean: true,
            will: None,
            user: None,
            pass: None,
        }
    }
    pub fn clean(mut self, c: bool) -> Self {
        self.clean = c;
        self
    }
    pub fn keepalive(mut self, k: u16) -> Self {
        self.keepalive = k;
        self
    }
    /// The same client with some of what a CONNECT may also carry (a will on a topic nobody subscribes
    /// to, user name, password). None of it changes what anyone observes.
    pub fn varied(&self, n: u64) -> Self {
        let mut r = crate::rng::Rng::new(n, crate::rng::hash(&self.id));
        let mut c = self.clone();
        if c.flags.is_some() || c.will.is_some() || c.user.is_some() || c.pass.is_some() {
            return c;
        }
        if r.pct(35) {
            let len = *r.pick(&[0, 1, 3, 20, 300]);
            c.will = Some((b"$will/t".to_vec(), r.bytes(len), r.below(3) as u8, r.pct(30)));
        }
        if r.pct(30) {
            c.user = Some(r.pick(&["", "u", "some user", "\u{e9}\u{20ac}"]).as_bytes().to_vec());
            if r.pct(50) {
                let len = *r.pick(&[0, 1, 9, 140]);
                c.pass = Some(r.bytes(len));
            }
        }
        c
    }
    pub fn computed_flags(&self) -> u8 {
        let mut f = 0;
        if self.clean {
            f |= 2;
        }
        if let Some((_, _, q, r)) = &self.will {
            f |= 4 | (q << 3) | if *r { 0x20 } else { 0 };
        }
        if self.user.is_some() {
            f |= 0x80;
        }
        if self.pass.is_some() {
            f |= 0x40;
        }
        f
    }
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec![];
        put_str(&mut b, &self.proto);
        b.push(self.level);
        b.push(self.flags.unwrap_or_else(|| self.computed_flags()));
        b.extend_from_slice(&self.keepalive.to_be_bytes());
        put_str(&mut b, &self.id);
        if let Some((t, m, _, _)) = &self.will {
            put_str(&mut b, t);
            put_str(&mut b, m);
        }
        if let Some(u) = &self.user {
            put_str(&mut b, u);
        }
        if let Some(p) = &self.pass {
            put_str(&mut b, p);
        }
        b
    }
    pub fn build(&self) -> Vec<u8> {
        raw(0x10, &self.body())
    }
}

pub fn publish(topic: &[u8], payload: &[u8], qos: u8, pid: u16, dup: bool, retain: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(topic.len() + payload.len() + 4);
    put_str(&mut b, topic);
    if qos > 0 {
        b.extend_from_slice(&pid.to_be_bytes());
    }
    b.extend_from_slice(payload);
    raw(0x30 | (qos << 1) | if dup { 8 } else { 0 } | retain as u8, &b)
}

pub fn subscribe<T: AsRef<[u8]>>(pid: u16, f: &[(T, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for (t, q) in f {
        put_str(&mut b, t.as_ref());
        b.push(*q);
    }
    raw(0x82, &b)
}

pub fn unsubscribe<T: AsRef<[u8]>>(pid: u16, f: &[T]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for t in f {
        put_str(&mut b, t.as_ref());
    }
    raw(0xa2, &b)
}

fn ack(first: u8, pid: u16) -> Vec<u8> {
    raw(first, &pid.to_be_bytes())
}
pub fn puback(pid: u16) -> Vec<u8> {
    ack(0x40, pid)
}
pub fn pubrec(pid: u16) -> Vec<u8> {
    ack(0x50, pid)
}
pub fn pubrel(pid: u16) -> Vec<u8> {
    ack(0x62, pid)
}
pub fn pubcomp(pid: u16) -> Vec<u8> {
    ack(0x70, pid)
}
pub fn pingreq() -> Vec<u8> {
    vec![0xc0, 0]
}
pub fn disconnect() -> Vec<u8> {
    vec![0xe0, 0]
}

// ------------------------------------------------------------------ reading a header

/// (size of the fixed header, remaining length), None: more bytes needed
fn header(b: &[u8]) -> Result<Option<(usize, usize)>, String> {
    let mut n = 0usize;
    for i in 0..4 {
        let Some(&x) = b.get(1 + i) else { return Ok(None) };
        n |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            if i > 0 && x == 0 {
                return Err("remaining length is not minimally encoded".into());
            }
            return Ok(Some((2 + i, n)));
        }
    }
    Err("remaining length is longer than four bytes".into())
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn u8(&mut self) -> Option<u8> {
        let (&x, r) = self.0.split_first()?;
        self.0 = r;
        Some(x)
    }
    fn u16(&mut self) -> Option<u16> {
        Some(((self.u8()? as u16) << 8) | self.u8()? as u16)
    }
    fn blob(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
}

pub fn good_text(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok() && !b.contains(&0)
}
pub fn good_topic(b: &[u8]) -> bool {
    !b.is_empty() && good_text(b) && !b.contains(&b'+') && !b.contains(&b'#')
}

// ------------------------------------------------------------------ what a server sends

/// The first packet of the buffer and its size; None: not complete yet; Err: not MQTT 3.1.1
pub fn parse_server(b: &[u8]) -> Result<Option<(SPkt, usize)>, String> {
    if b.is_empty() {
        return Ok(None);
    }
    let first = b[0];
    let ty = first >> 4;
    let flags = first & 15;
    match ty {
        2 | 4 | 5 | 7 | 9 | 11 | 13 if flags != 0 => return Err(format!("wrong flags in first byte {:#x}", first)),
        6 if flags != 2 => return Err(format!("wrong flags in first byte {:#x}", first)),
        2 | 3 | 4 | 5 | 6 | 7 | 9 | 11 | 13 => {}
        _ => return Err(format!("a server does not send packets with first byte {:#x}", first)),
    }
    let Some((h, n)) = header(b)? else { return Ok(None) };
    let want = match ty {
        2 | 4 | 5 | 6 | 7 | 11 => Some(2),
        13 => Some(0),
        _ => None,
    };
    if want.is_some_and(|w| w != n) {
        return Err(format!("remaining length {} in a packet with first byte {:#x}", n, first));
    }
    if b.len() < h + n {
        return Ok(None);
    }
    let body = &b[h..h + n];
    let mut c = Cur(body);
    let id = |c: &mut Cur| -> Result<u16, String> {
        match c.u16() {
            None => Err("packet identifier missing".into()),
            Some(0) => Err(format!("packet identifier zero in packet {}", hex(&b[..h + n]))),
            Some(x) => Ok(x),
        }
    };
    let p = match ty {
        2 => {
            let (f, code) = (body[0], body[1]);
            if f > 1 || code > 5 || (f == 1 && code != 0) {
                return Err(format!("bad CONNACK {}", hex(body)));
            }
            SPkt::ConnAck { present: f == 1, code }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            let dup = flags & 8 != 0;
            if qos == 3 || (qos == 0 && dup) {
                return Err(format!("bad PUBLISH flags in {:#x}", first));
            }
            let topic = c.blob().ok_or("PUBLISH topic is cut short")?;
            if !good_topic(topic) {
                return Err(format!("bad topic name {}", show(topic)));
            }
            let pid = if qos > 0 { id(&mut c)? } else { 0 };
            SPkt::Publish(Msg { dup, qos, retain: flags & 1 != 0, topic: topic.to_vec(), pid, payload: c.0.to_vec() })
        }
        4 => SPkt::PubAck(id(&mut c)?),
        5 => SPkt::PubRec(id(&mut c)?),
        6 => SPkt::PubRel(id(&mut c)?),
        7 => SPkt::PubComp(id(&mut c)?),
        9 => {
            let i = id(&mut c)?;
            if c.0.is_empty() || c.0.iter().any(|x| !matches!(x, 0 | 1 | 2 | 0x80)) {
                return Err(format!("bad SUBACK {}", hex(body)));
            }
            SPkt::SubAck(i, c.0.to_vec())
        }
        11 => SPkt::UnsubAck(id(&mut c)?),
        _ => SPkt::PingResp,
    };
    Ok(Some((p, h + n)))
}

// ------------------------------------------------------------------ judging client packets

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// One whole legal packet of this many bytes is first
    Valid(usize),
    /// More bytes are needed before anything can be said
    Incomplete,
    /// Cannot be the start of a legal stream (of a client that is connected)
    Invalid,
    /// Not settled, or not to be judged here
    Gray,
}

/// Is a topic filter syntactically valid (None: more than 100 levels, or a shared subscription)?
pub fn filter_ok(f: &[u8]) -> Option<bool> {
    if f.is_empty() {
        return Some(false);
    }
    let levels: Vec<&[u8]> = f.split(|c| *c == b'/').collect();
    let n = levels.len();
    for (i, l) in levels.iter().enumerate() {
        let wild = l.contains(&b'+') || l.contains(&b'#');
        if wild && !(l.len() == 1 && (l[0] == b'+' || i == n - 1)) {
            return Some(false);
        }
    }
    if n > 100 || levels[0] == b"$share" {
        return None;
    }
    Some(true)
}

/// Judge the first packet of a buffer as sent by a client that is already connected.
pub fn judge(b: &[u8]) -> Verdict {
    use Verdict::*;
    if b.is_empty() {
        return Incomplete;
    }
    let ty = b[0] >> 4;
    let flags = b[0] & 15;
    let bad_first = match ty {
        0 | 15 | 2 | 9 | 11 | 13 => true,
        1 => true, // a second CONNECT
        3 => (flags >> 1) & 3 == 3,
        6 | 8 | 10 => flags != 2,
        _ => flags != 0,
    };
    let (h, n) = match header(b) {
        Ok(Some(x)) => x,
        Ok(None) => return if bad_first { Gray } else { Incomplete },
        Err(e) if e.contains("minimally") => return Gray,
        Err(_) => return Invalid,
    };
    if b.len() < h + n {
        // Whether a bad header is noticed early or at the end of the packet is the broker's choice.
        let wrong_len = match ty {
            4..=7 => n != 2,
            12 | 14 => n != 0,
            _ => false,
        };
        return if bad_first || wrong_len { Gray } else { Incomplete };
    }
    if bad_first {
        return Invalid;
    }
    let mut c = Cur(&b[h..h + n]);
    let r = (|| -> Option<Verdict> {
        Some(match ty {
            3 => {
                let t = c.blob()?;
                if !good_topic(t) {
                    return None;
                }
                if flags & 6 != 0 && c.u16()? == 0 {
                    return None;
                }
                if flags & 14 == 8 {
                    Gray // DUP with QoS 0
                } else {
                    Valid(h + n)
                }
            }
            4..=7 => {
                if n != 2 || c.u16()? == 0 {
                    return None;
                }
                Valid(h + n)
            }
            8 => {
                if c.u16()? == 0 || c.0.is_empty() {
                    return None;
                }
                while !c.0.is_empty() {
                    let f = c.blob()?;
                    if !good_text(f) || c.u8()? > 2 {
                        return None;
                    }
                }
                Valid(h + n)
            }
            10 => {
                if c.u16()? == 0 || c.0.is_empty() {
                    return None;
                }
                let mut gray = false;
                while !c.0.is_empty() {
                    let f = c.blob()?;
                    if !good_text(f) {
                        return None;
                    }
                    gray |= filter_ok(f) != Some(true);
                }
                if gray {
                    Gray
                } else {
                    Valid(h + n)
                }
            }
            12 | 14 => {
                if n != 0 {
                    return None;
                }
                Valid(2)
            }
            _ => return None,
        })
    })();
    r.unwrap_or(Invalid)
}

// ------------------------------------------------------------------ topic matching

/// Does a valid filter match a topic name? [MQTT 4.7]
pub fn matches(filter: &[u8], topic: &[u8]) -> bool {
    let f: Vec<&[u8]> = filter.split(|c| *c == b'/').collect();
    let t: Vec<&[u8]> = topic.split(|c| *c == b'/').collect();
    if topic.first() == Some(&b'$') && (f[0] == b"+" || f[0] == b"#") {
        return false;
    }
    for (i, l) in f.iter().enumerate() {
        if *l == b"#" {
            return t.len() >= i;
        }
        match t.get(i) {
            Some(x) if *l == b"+" || l == x => {}
            _ => return false,
        }
    }
    f.len() == t.len()
}

//! An MQTT client whose every byte is under control. A thread of its own reads and strictly decodes
//! what the broker sends; tests take decoded packets from two queues (answers and messages).
use crate::codec::{self, *};
use crate::report::{now, Fail, Res};
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

/// How long silence has to last before it counts as "never"
pub const WAIT: Duration = Duration::from_secs(25);

/// Makes every CONNECT a different one
static VARIED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
pub struct Ev {
    /// Nanoseconds on the harness's clock when the packet was decoded
    pub t: u64,
    /// Position in the connection's stream of packets
    pub seq: u64,
    pub pkt: SPkt,
}

impl Ev {
    pub fn msg(&self) -> &Msg {
        match &self.pkt {
            SPkt::Publish(m) => m,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Eof,
    Reset,
}

#[derive(Default)]
pub struct State {
    pub answers: VecDeque<Ev>,
    pub msgs: VecDeque<Ev>,
    pub closed: Option<(End, u64)>,
    pub bad: Option<String>,
    pub n: u64,
    pub rx_bytes: u64,
    /// With auto_pub: own publishes not yet acknowledged, and how far they are
    pub pending: HashMap<u16, u8>,
    pub completed: u64,
    pub trace: VecDeque<String>,
}

pub struct Shared {
    pub m: Mutex<State>,
    pub cv: Condvar,
    w: Mutex<()>,
    pause: AtomicBool,
    quit: AtomicBool,
    /// The reader acknowledges messages by itself
    auto_ack: AtomicBool,
    /// The reader completes the handshakes of own publishes by itself
    auto_pub: AtomicBool,
    /// Read at most this many bytes at once
    chunk: AtomicUsize,
    /// Pause after every read, microseconds
    delay: AtomicU64,
    /// Do not keep messages, only count them
    discard: AtomicBool,
    /// Do not wake the waiter for messages that are not of interest: wake every so many
    pub msgs_seen: AtomicU64,
}

pub struct Client {
    pub name: String,
    pub sock: Arc<TcpStream>,
    pub sh: Arc<Shared>,
    pub next_pid: AtomicU16,
    /// waits end after this long, whatever else arrives meanwhile
    firm: Option<Duration>,
}

impl Drop for Client {
    fn drop(&mut self) {
        self.sh.quit.store(true, SeqCst);
        let _ = self.sock.shutdown(Shutdown::Both);
        self.sh.pause.store(false, SeqCst);
    }
}

fn note(st: &mut State, s: String) {
    if st.trace.len() >= 60 {
        st.trace.pop_front();
    }
    st.trace.push_back(s);
}

fn write_locked(sock: &TcpStream, sh: &Shared, b: &[u8]) -> std::io::Result<()> {
    let _g = sh.w.lock().unwrap();
    (&*sock).write_all(b)
}

fn reader(sock: Arc<TcpStream>, sh: Arc<Shared>) {
    let mut buf: Vec<u8> = Vec::new();
    let mut start = 0usize;
    let mut tmp = vec![0u8; 256 * 1024];
    loop {
        while sh.pause.load(SeqCst) && !sh.quit.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(2));
        }
        let want = sh.chunk.load(Relaxed).min(tmp.len());
        let r = (&*sock).read(&mut tmp[..want]);
        let n = match r {
            Ok(0) => {
                let mut st = sh.m.lock().unwrap();
                if st.bad.is_none() && start < buf.len() {
                    st.bad = Some(format!("the stream ends inside a packet, after {}", hex(&buf[start..])));
                }
                st.closed = Some((End::Eof, now()));
                note(&mut st, "<- end of stream".into());
                sh.cv.notify_all();
                return;
            }
            Ok(n) => n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted || e.kind() == std::io::ErrorKind::WouldBlock => continue,
            Err(_) => {
                let mut st = sh.m.lock().unwrap();
                st.closed = Some((End::Reset, now()));
                note(&mut st, "<- reset".into());
                sh.cv.notify_all();
                return;
            }
        };
        crate::sys::quick_ack(sock.as_raw_fd());
        if start > 0 && start == buf.len() {
            buf.clear();
            start = 0;
        } else if start > 1 << 20 {
            buf.drain(..start);
            start = 0;
        }
        buf.extend_from_slice(&tmp[..n]);
        let t = now();
        let mut acks = Vec::new();
        let mut st = sh.m.lock().unwrap();
        st.rx_bytes += n as u64;
        let mut wake = st.bad.is_some();
        while st.bad.is_none() {
            match codec::parse_server(&buf[start..]) {
                Ok(None) => break,
                Err(e) => {
                    st.bad = Some(format!("{} at {}", e, hex(&buf[start..buf.len().min(start + 60)])));
                    note(&mut st, "<- not MQTT".into());
                    wake = true;
                }
                Ok(Some((pkt, size))) => {
                    start += size;
                    let seq = st.n;
                    st.n += 1;
                    if sh.auto_ack.load(Relaxed) {
                        match &pkt {
                            SPkt::Publish(m) if m.qos == 1 => acks.extend(puback(m.pid)),
                            SPkt::Publish(m) if m.qos == 2 => acks.extend(pubrec(m.pid)),
                            SPkt::PubRel(i) => {
                                acks.extend(pubcomp(*i));
                                continue;
                            }
                            _ => {}
                        }
                    }
                    if sh.auto_pub.load(Relaxed) {
                        match &pkt {
                            SPkt::PubAck(i) if st.pending.get(i) == Some(&1) => {
                                st.pending.remove(i);
                                st.completed += 1;
                                wake = true;
                                continue;
                            }
                            SPkt::PubRec(i) if st.pending.get(i) == Some(&2) => {
                                st.pending.insert(*i, 3);
                                acks.extend(pubrel(*i));
                                continue;
                            }
                            SPkt::PubComp(i) if st.pending.get(i) == Some(&3) => {
                                st.pending.remove(i);
                                st.completed += 1;
                                wake = true;
                                continue;
                            }
                            _ => {}
                        }
                    }
                    wake = true;
                    note(&mut st, format!("<- {}", pkt.brief()));
                    let ev = Ev { t, seq, pkt };
                    if matches!(ev.pkt, SPkt::Publish(_)) {
                        sh.msgs_seen.fetch_add(1, SeqCst);
                        if !sh.discard.load(Relaxed) {
                            st.msgs.push_back(ev);
                        }
                    } else {
                        st.answers.push_back(ev);
                    }
                }
            }
        }
        if st.bad.is_some() {
            buf.clear();
            start = 0;
        }
        drop(st);
        if wake {
            sh.cv.notify_all();
        }
        if !acks.is_empty() {
            let _ = write_locked(&sock, &sh, &acks);
        }
        let d = sh.delay.load(Relaxed);
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d));
        }
    }
}

#[derive(Clone, Default)]
pub struct SockOpts {
    pub rcvbuf: Option<i32>,
    pub sndbuf: Option<i32>,
    pub chunk: Option<usize>,
    pub delay_us: u64,
    pub paused: bool,
    pub auto_ack: bool,
    pub auto_pub: bool,
    pub discard: bool,
    pub firm: Option<Duration>,
}

pub fn tcp(addr: SocketAddr) -> std::io::Result<TcpStream> {
    TcpStream::connect_timeout(&addr, Duration::from_secs(20))
}

impl Client {
    /// A TCP connection, nothing sent
    pub fn open(addr: SocketAddr, name: &str, o: &SockOpts) -> Res<Client> {
        let s = match tcp(addr) {
            Ok(s) => s,
            Err(e) => return Err(Fail::V(format!("{}: cannot connect to the broker: {}", name, e))),
        };
        Ok(Self::over(s, name, o))
    }
    pub fn over(s: TcpStream, name: &str, o: &SockOpts) -> Client {
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(WAIT));
        if let Some(n) = o.rcvbuf {
            crate::sys::set_buf(s.as_raw_fd(), crate::sys::SO_RCVBUF, n);
        }
        if let Some(n) = o.sndbuf {
            crate::sys::set_buf(s.as_raw_fd(), crate::sys::SO_SNDBUF, n);
        }
        let sock = Arc::new(s);
        let sh = Arc::new(Shared {
            m: Mutex::new(State::default()),
            cv: Condvar::new(),
            w: Mutex::new(()),
            pause: AtomicBool::new(o.paused),
            quit: AtomicBool::new(false),
            auto_ack: AtomicBool::new(o.auto_ack),
            auto_pub: AtomicBool::new(o.auto_pub),
            chunk: AtomicUsize::new(o.chunk.unwrap_or(256 * 1024)),
            delay: AtomicU64::new(o.delay_us),
            discard: AtomicBool::new(o.discard),
            msgs_seen: AtomicU64::new(0),
        });
        let (a, b) = (sock.clone(), sh.clone());
        std::thread::Builder::new().stack_size(256 * 1024).spawn(move || reader(a, b)).expect("thread");
        Client { name: name.to_string(), sock, sh, next_pid: AtomicU16::new(1), firm: o.firm }
    }

    /// Connect and expect to be accepted
    pub fn connect(addr: SocketAddr, c: &Connect, o: &SockOpts) -> Res<Client> {
        Ok(Self::connect_sp(addr, c, o)?.0)
    }
    /// ... and tell the session-present flag
    pub fn connect_sp(addr: SocketAddr, c: &Connect, o: &SockOpts) -> Res<(Client, bool)> {
        let name = String::from_utf8_lossy(&c.id).chars().take(30).collect::<String>();
        let cl = Self::open(addr, &name, o)?;
        cl.send(&c.varied(VARIED.fetch_add(1, Relaxed)).build())?;
        if o.paused {
            // the caller does not want anything read yet
            return Ok((cl, false));
        }
        let sp = cl.expect_connack()?;
        Ok((cl, sp))
    }
    pub fn expect_connack(&self) -> Res<bool> {
        let ev = self.answer()?;
        match ev.pkt {
            SPkt::ConnAck { present, code: 0 } => {
                if ev.seq != 0 {
                    return self.bad(format!("CONNACK is not the first packet but number {}", ev.seq));
                }
                Ok(present)
            }
            p => self.bad(format!("expected CONNACK with code 0, got {:?}", p)),
        }
    }
    pub fn simple(addr: SocketAddr, id: &str) -> Res<Client> {
        Self::connect(addr, &Connect::new(id), &SockOpts { auto_ack: true, ..Default::default() })
    }

    pub fn bad<T>(&self, s: String) -> Res<T> {
        Err(self.fail(s))
    }
    pub fn fail(&self, s: String) -> Fail {
        let st = self.sh.m.lock().unwrap();
        let tr: Vec<String> = st.trace.iter().rev().take(30).rev().cloned().collect();
        Fail::V(format!("client {}: {}\n    last events of {}:\n      {}", self.name, s, self.name, tr.join("\n      ")))
    }

    pub fn note(&self, s: String) {
        note(&mut self.sh.m.lock().unwrap(), s);
    }

    pub fn try_send(&self, b: &[u8]) -> std::io::Result<()> {
        self.note(format!("-> {}", if b.len() > 40 { format!("{}...({} bytes)", hex(&b[..40]), b.len()) } else { hex(b) }));
        write_locked(&self.sock, &self.sh, b)
    }
    pub fn send(&self, b: &[u8]) -> Res<()> {
        self.try_send(b).map_err(|e| self.fail(format!("cannot send: {} (the broker closed the connection or stopped reading)", e)))
    }
    pub fn pid(&self) -> u16 {
        loop {
            let p = self.next_pid.fetch_add(1, Relaxed);
            if p != 0 {
                return p;
            }
        }
    }

    // ---------------------------------------------------------------- waiting

    /// Wait until `f` gives something. `None` after `limit` of nothing.
    pub fn wait<T>(&self, limit: Duration, mut f: impl FnMut(&mut State) -> Option<T>) -> Option<T> {
        let start = Instant::now();
        let firm = self.firm.filter(|_| limit >= WAIT);
        let mut end = start + firm.unwrap_or(limit);
        let mut st: MutexGuard<State> = self.sh.m.lock().unwrap();
        let mut rx = st.rx_bytes;
        loop {
            if let Some(x) = f(&mut st) {
                return Some(x);
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                // slow is not silent, for some minutes
                if limit >= WAIT && firm.is_none() && st.rx_bytes != rx && start.elapsed() < WAIT * 8 {
                    rx = st.rx_bytes;
                    end = Instant::now() + limit;
                    continue;
                }
                return None;
            }
            st = self.sh.cv.wait_timeout(st, left).unwrap().0;
        }
    }

    fn never(&self, what: &str) -> Fail {
        crate::report::silence(self.fail(format!("no {} within {} s", what, self.firm.unwrap_or(WAIT).as_secs())))
    }

    /// The next answer (anything but a PUBLISH)
    pub fn answer(&self) -> Res<Ev> {
        match self.wait(WAIT, |s| s.answers.pop_front().map(Ok).or_else(|| ended(s).map(Err))) {
            None => Err(self.never("answer")),
            Some(Ok(e)) => Ok(e),
            Some(Err(why)) => self.bad(format!("{} while an answer was due", why)),
        }
    }
    /// The next message
    pub fn message(&self) -> Res<Ev> {
        match self.wait(WAIT, |s| s.msgs.pop_front().map(Ok).or_else(|| ended(s).map(Err))) {
            None => Err(self.never("message")),
            Some(Ok(e)) => Ok(e),
            Some(Err(why)) => self.bad(format!("{} while a message was due", why)),
        }
    }
    /// All messages before the one with this payload, which is dropped
    pub fn messages_until(&self, sentinel: &[u8]) -> Res<Vec<Ev>> {
        let mut v = vec![];
        loop {
            let e = self.message().map_err(|f| f.ctx(&format!("waiting for sentinel {} after {} messages", show(sentinel), v.len())))?;
            if e.msg().payload == sentinel {
                return Ok(v);
            }
            v.push(e);
        }
    }
    /// The broker has to close the connection
    pub fn expect_closed(&self, limit: Duration) -> Res<End> {
        match self.wait(limit, |s| s.closed.map(|c| c.0)) {
            Some(e) => Ok(e),
            None => Err(crate::report::silence(self.fail(format!("the broker has not closed this connection within {} s", limit.as_secs_f64())))),
        }
    }
    pub fn is_closed(&self) -> bool {
        self.sh.m.lock().unwrap().closed.is_some()
    }
    pub fn malformed(&self) -> Option<String> {
        self.sh.m.lock().unwrap().bad.clone()
    }
    pub fn take_msgs(&self) -> Vec<Ev> {
        self.sh.m.lock().unwrap().msgs.drain(..).collect()
    }
    pub fn take_answers(&self) -> Vec<Ev> {
        self.sh.m.lock().unwrap().answers.drain(..).collect()
    }

    // ---------------------------------------------------------------- requests

    pub fn subscribe<T: AsRef<[u8]>>(&self, f: &[(T, u8)]) -> Res<Vec<u8>> {
        let id = self.pid();
        self.send(&codec::subscribe(id, f))?;
        let e = self.answer()?;
        match e.pkt {
            SPkt::SubAck(i, codes) if i == id && codes.len() == f.len() => Ok(codes),
            p => self.bad(format!("expected SUBACK({}) with {} codes, got {}", id, f.len(), p.brief())),
        }
    }
    /// Subscribe and expect the requested QoS to be granted
    pub fn sub<T: AsRef<[u8]>>(&self, f: &[(T, u8)]) -> Res<()> {
        let codes = self.subscribe(f)?;
        for (i, c) in codes.iter().enumerate() {
            if *c != f[i].1 {
                return self.bad(format!("filter {} at QoS {} was answered with code {:#x}", show(f[i].0.as_ref()), f[i].1, c));
            }
        }
        Ok(())
    }
    pub fn unsub<T: AsRef<[u8]>>(&self, f: &[T]) -> Res<()> {
        let id = self.pid();
        self.send(&codec::unsubscribe(id, f))?;
        let e = self.answer()?;
        match e.pkt {
            SPkt::UnsubAck(i) if i == id => Ok(()),
            p => self.bad(format!("expected UNSUBACK({}), got {}", id, p.brief())),
        }
    }
    pub fn ping(&self) -> Res<()> {
        self.send(&pingreq())?;
        match self.answer()?.pkt {
            SPkt::PingResp => Ok(()),
            p => self.bad(format!("expected PINGRESP, got {}", p.brief())),
        }
    }
    /// Publish, without waiting for anything (auto_pub does the handshakes)
    pub fn publish<T: AsRef<[u8]>>(&self, topic: T, payload: &[u8], qos: u8) -> Res<u16> {
        let pid = if qos > 0 { self.pid() } else { 0 };
        if qos > 0 && self.sh.auto_pub.load(Relaxed) {
            self.sh.m.lock().unwrap().pending.insert(pid, qos);
        }
        self.send(&codec::publish(topic.as_ref(), payload, qos, pid, false, false))?;
        Ok(pid)
    }
    /// Wait until at most n own publishes are not acknowledged
    pub fn settle(&self, n: usize) -> Res<()> {
        match self.wait(WAIT, |s| {
            if s.pending.len() <= n {
                Some(Ok(()))
            } else {
                ended(s).map(Err)
            }
        }) {
            None => Err(self.never("acknowledgement of a publish")),
            Some(Ok(())) => Ok(()),
            Some(Err(w)) => self.bad(format!("{} while an acknowledgement was due", w)),
        }
    }

    // ---------------------------------------------------------------- ending, stalling

    pub fn pause(&self, p: bool) {
        self.sh.pause.store(p, SeqCst);
    }
    pub fn set_chunk(&self, n: usize, delay_us: u64) {
        self.sh.chunk.store(n, SeqCst);
        self.sh.delay.store(delay_us, SeqCst);
    }
    pub fn set_auto_ack(&self, a: bool) {
        self.sh.auto_ack.store(a, SeqCst);
    }
    pub fn abort(&self) {
        self.note("-- abort".into());
        self.sh.quit.store(true, SeqCst);
        crate::sys::abort(self.sock.as_raw_fd());
    }
    pub fn half_close(&self) {
        self.note("-- half-close".into());
        let _ = self.sock.shutdown(Shutdown::Write);
    }
    pub fn close(&self) {
        self.note("-- close".into());
        self.sh.quit.store(true, SeqCst);
        let _ = self.sock.shutdown(Shutdown::Both);
    }
    pub fn seen(&self) -> u64 {
        self.sh.msgs_seen.load(SeqCst)
    }
}

fn ended(s: &State) -> Option<String> {
    if let Some(b) = &s.bad {
        return Some(format!("the broker sent something that is not MQTT 3.1.1 ({})", b));
    }
    s.closed.map(|(e, _)| match e {
        End::Eof => "the broker closed the connection".to_string(),
        End::Reset => "the connection was reset".to_string(),
    })
}

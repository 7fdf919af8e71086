//! The few system calls std has no wrapper for.
use std::os::fd::RawFd;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
    fn connect(fd: i32, addr: *const u8, len: u32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(res: i32, r: *const [u64; 2]) -> i32;
    fn getrlimit(res: i32, r: *mut [u64; 2]) -> i32;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn close(fd: i32) -> i32;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
}

pub const SO_SNDBUF: i32 = 7;
pub const SO_RCVBUF: i32 = 8;
const SO_LINGER: i32 = 13;

pub fn set_buf(fd: RawFd, which: i32, n: i32) {
    unsafe {
        setsockopt(fd, 1, which, &n as *const i32 as *const u8, 4);
    }
}

/// Acknowledge what has arrived now, not 40 ms later
pub fn quick_ack(fd: RawFd) {
    let n: i32 = 1;
    unsafe {
        setsockopt(fd, 6, 12, &n as *const i32 as *const u8, 4);
    }
}

pub fn set_linger0(fd: RawFd) {
    let v: [i32; 2] = [1, 0];
    unsafe {
        setsockopt(fd, 1, SO_LINGER, v.as_ptr() as *const u8, 8);
    }
}

/// Abort a TCP connection with a reset, whoever else holds the descriptor
pub fn abort(fd: RawFd) {
    set_linger0(fd);
    let addr = [0u8; 16]; // AF_UNSPEC
    unsafe {
        connect(fd, addr.as_ptr(), 16);
    }
}

/// To every thread of a process
pub fn signal_threads(pid: u32, sig: i32) {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    const SYS_TGKILL: i64 = 234;
    for t in std::fs::read_dir(format!("/proc/{}/task", pid)).into_iter().flatten().flatten() {
        if let Some(tid) = t.file_name().to_str().and_then(|s| s.parse::<i64>().ok()) {
            unsafe { syscall(SYS_TGKILL, pid as i64, tid, sig as i64) };
        }
    }
}

pub fn signal(pid: u32, sig: i32) {
    unsafe {
        kill(pid as i32, sig);
    }
}

/// In a child: die with the parent
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

pub fn limit_files(n: u64) {
    let r = [n, n];
    unsafe {
        setrlimit(7, &r);
    }
}

pub fn raise_files() {
    let mut r = [0u64; 2];
    unsafe {
        getrlimit(7, &mut r);
        let want = [r[1].min(60000), r[1]];
        setrlimit(7, &want);
    }
}

/// Does a process still hold the end of a TCP connection whose own address is `own`? (None: not known)
pub fn held(own: std::net::SocketAddr, peer: std::net::SocketAddr) -> Option<bool> {
    let hex = |a: std::net::SocketAddr| match a {
        std::net::SocketAddr::V4(v) => format!("{:08X}:{:04X}", u32::from_le_bytes(v.ip().octets()), v.port()),
        _ => String::new(),
    };
    let (own, peer) = (hex(own), hex(peer));
    let t = std::fs::read_to_string("/proc/net/tcp").ok()?;
    for l in t.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 9 && f[1] == own && f[2] == peer {
            // without a process: no inode
            return Some(f[9] != "0");
        }
    }
    Some(false)
}

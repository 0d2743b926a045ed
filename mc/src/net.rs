//! Simulated TCP: interposed socket calls on descriptors >= FD0, and the harness-side `Peer` API.
use crate::rt::*;
use std::collections::{BTreeMap, VecDeque};

pub const FD0: i32 = 100_000;
const NETKEY: usize = 1 << 61;

#[derive(Default)]
pub struct Pipe {
    pub chunks: VecDeque<Vec<u8>>, // not yet read; one read never returns more than one chunk
    pub fin: bool,                 // writer finished
    pub rst: bool,                 // connection reset: reader gets ECONNRESET once data is gone
    pub rclosed: bool,             // reader closed: writes fail
    pub dead_writes: u32,
    pub wcap: Option<usize>,       // at most this many bytes per write call
    pub wfail_after: Option<usize>,// writes fail (EPIPE) after this many bytes
    pub written: usize,
    pub read_calls: u64,
    pub window: usize,             // at most this many bytes not yet read (0 = unlimited): a full one blocks the writer
    pub wcuts: Vec<usize>,         // a write never crosses these offsets
    pub weintr: Vec<usize>,        // the write at this offset is interrupted once
}

pub struct Conn {
    pub pipe: [Pipe; 2], // pipe[s] = bytes written by side s
    pub addr: [(u32, u16); 2],
    pub closed: [bool; 2],
    pub closed_at: [u64; 2],
    pub refs: [u32; 2],
}

pub struct Listener {
    pub port: u16,
    pub ip: u32,
    pub queue: VecDeque<usize>,
    pub open: bool,
}

#[derive(Clone, Copy, Debug)]
enum Obj {
    New,
    Listener(usize),
    Stream(usize, usize), // conn, side
}

struct Desc {
    obj: Obj,
    refs: u32,
    nonblock: bool,
    rcvtimeo: u64,
    sndtimeo: u64,
    bound: Option<(u32, u16)>,
}

pub struct Net {
    fds: Vec<Option<usize>>,
    descs: Vec<Desc>,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub refuse: bool,
    /// bit k: the k-th duplication of a socket from now on is refused
    pub refuse_dups: u64,
    pub dups: u32,
    /// bit k: the k-th connection asked for from now on is refused to the listener (it stays waiting)
    pub refuse_accepts: u64,
    pub accepts: u32,
    pub accept_errno: i32,
    /// addresses that are not this machine's
    pub foreign: Vec<u32>,
    /// ports that can be bound but not listened on
    pub unlistenable: Vec<u16>,
    /// writes to real files are scheduling points
    pub file_points: bool,
    pub resolved: Vec<String>,
    pub connects: Vec<(u32, u16)>,
    pub dial: Option<Box<dyn Fn(&mut Pipe)>>, // prepares the pipe the code under test writes to when it connects
    pub hosts: BTreeMap<String, u32>,
    /// names with several addresses, in the order the resolver gives them
    pub answers: BTreeMap<String, Vec<std::net::IpAddr>>,
    /// connections are over IPv6 (see `v6_of`)
    pub v6: bool,
    next_port: u16,
    pub log: Vec<String>,
}

static mut NET: Option<Net> = None;

#[allow(static_mut_refs)]
pub fn net() -> &'static mut Net {
    unsafe {
        if NET.is_none() {
            NET = Some(Net {
                fds: vec![],
                descs: vec![],
                conns: vec![],
                listeners: vec![],
                refuse: false,
                refuse_dups: 0,
                dups: 0,
                refuse_accepts: 0,
                accepts: 0,
                accept_errno: libc::EMFILE,
                foreign: vec![],
                unlistenable: vec![],
                file_points: false,
                resolved: vec![],
                connects: vec![],
                dial: None,
                hosts: BTreeMap::new(),
                answers: BTreeMap::new(),
                v6: false,
                next_port: 40000,
                log: vec![],
            });
        }
        NET.as_mut().unwrap()
    }
}

pub fn open_fds() -> usize {
    net().fds.iter().filter(|x| x.is_some()).count()
}
/// Connections the code under test still holds open.
pub fn open_streams() -> usize {
    let n = net();
    n.fds.iter().filter(|x| x.map_or(false, |d| matches!(n.descs[d].obj, Obj::Stream(..)))).count()
}

fn errno(e: i32) -> i32 {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn desc(fd: i32) -> Option<&'static mut Desc> {
    let n = net();
    let i = (fd - FD0) as usize;
    match n.fds.get(i) {
        Some(Some(d)) => Some(&mut n.descs[*d]),
        _ => None,
    }
}

fn new_fd(d: usize) -> i32 {
    let n = net();
    for (i, f) in n.fds.iter_mut().enumerate() {
        if f.is_none() {
            *f = Some(d);
            return FD0 + i as i32;
        }
    }
    n.fds.push(Some(d));
    FD0 + n.fds.len() as i32 - 1
}

fn new_desc(obj: Obj) -> usize {
    let n = net();
    let d = Desc { obj, refs: 1, nonblock: false, rcvtimeo: 0, sndtimeo: 0, bound: None };
    for (i, x) in n.descs.iter_mut().enumerate() {
        if x.refs == 0 {
            *x = d;
            return i;
        }
    }
    n.descs.push(d);
    n.descs.len() - 1
}

#[inline]
fn sim(fd: i32) -> bool {
    fd >= FD0 && rt().active
}

fn key(c: usize, side: usize) -> usize {
    NETKEY | (c << 4) | side
}
fn lkey(l: usize) -> usize {
    NETKEY | (1 << 40) | l
}
/// wake everyone interested in conn c
fn wake_conn(c: usize) {
    wake(key(c, 0), usize::MAX);
    wake(key(c, 1), usize::MAX);
    wake(POLLKEY, usize::MAX);
    wake(APP_KEY, usize::MAX);
}
const POLLKEY: usize = NETKEY | (1 << 41);

unsafe fn read_addr(a: *const libc::sockaddr) -> (u32, u16) {
    if (*a).sa_family as i32 == libc::AF_INET {
        let s = a as *const libc::sockaddr_in;
        (u32::from_be((*s).sin_addr.s_addr), u16::from_be((*s).sin_port))
    } else {
        let s = a as *const libc::sockaddr_in6;
        (0, u16::from_be((*s).sin6_port))
    }
}
/// The IPv6 address standing for an IPv4 one when all connections are over IPv6.
pub fn v6_of(ip: u32) -> std::net::Ipv6Addr {
    match ip {
        0x7f000001 => std::net::Ipv6Addr::LOCALHOST,
        x if x & 1 == 0 => std::net::Ipv6Addr::from(0x2001_0db8_0000_0000_0000_0000_0000_0000u128 | x as u128), // with a run of zeroes
        x => std::net::Ipv6Addr::from(0xfe80_0001_0002_0003_0004_0005_0000_0000u128 | x as u128),
    }
}

unsafe fn write_addr(a: *mut libc::sockaddr, len: *mut libc::socklen_t, ip: u32, port: u16) {
    if a.is_null() {
        return;
    }
    if net().v6 {
        return write_addr6(a, len, v6_of(ip), port);
    }
    let s = a as *mut libc::sockaddr_in;
    (*s).sin_family = libc::AF_INET as u16;
    (*s).sin_port = port.to_be();
    (*s).sin_addr.s_addr = ip.to_be();
    (*s).sin_zero = [0; 8];
    *len = std::mem::size_of::<libc::sockaddr_in>() as u32;
}

unsafe fn write_addr6(a: *mut libc::sockaddr, len: *mut libc::socklen_t, ip: std::net::Ipv6Addr, port: u16) {
    let s = a as *mut libc::sockaddr_in6;
    (*s).sin6_family = libc::AF_INET6 as u16;
    (*s).sin6_port = port.to_be();
    (*s).sin6_flowinfo = 0;
    (*s).sin6_addr.s6_addr = ip.octets();
    (*s).sin6_scope_id = 0;
    *len = std::mem::size_of::<libc::sockaddr_in6>() as u32;
}

// ------------------------------------------------------------------ core operations
fn find_listener(port: u16) -> Option<usize> {
    net().listeners.iter().position(|l| l.open && l.port == port)
}

fn make_conn(l: usize, client: (u32, u16)) -> usize {
    let n = net();
    let srv = (if n.listeners[l].ip == 0 { 0x7f000001 } else { n.listeners[l].ip }, n.listeners[l].port);
    n.conns.push(Conn {
        pipe: [Pipe::default(), Pipe::default()],
        addr: [srv, client],
        closed: [false, false],
        closed_at: [0, 0],
        refs: [0, 0],
    });
    let c = n.conns.len() - 1;
    n.listeners[l].queue.push_back(c);
    wake(lkey(l), usize::MAX);
    wake(POLLKEY, usize::MAX);
    wake(APP_KEY, usize::MAX);
    c
}

enum Rd {
    Data(Vec<u8>),
    Eof,
    Reset,
    Wait,
}

fn do_read(c: usize, side: usize, max: usize, peek: bool) -> Rd {
    let p = &mut net().conns[c].pipe[1 - side];
    if let Some(ch) = p.chunks.front_mut() {
        let k = max.min(ch.len());
        let out = ch[..k].to_vec();
        if !peek {
            p.read_calls += 1;
            if k == ch.len() {
                p.chunks.pop_front();
            } else {
                ch.drain(..k);
            }
            if p.window > 0 {
                wake_conn(c);
            }
        }
        return Rd::Data(out);
    }
    if p.rst {
        return Rd::Reset;
    }
    if p.fin {
        return Rd::Eof;
    }
    if net().conns[c].pipe[1 - side].rclosed {
        return Rd::Eof;
    }
    Rd::Wait
}

/// Err(errno)
fn do_write(c: usize, side: usize, data: &[u8]) -> Result<usize, i32> {
    let p = &mut net().conns[c].pipe[side];
    if p.fin {
        return Err(libc::EPIPE);
    }
    if data.is_empty() {
        return Ok(0);
    }
    let mut k = data.len();
    if let Some(i) = p.weintr.iter().position(|x| *x <= p.written) {
        p.weintr.remove(i);
        return Err(libc::EINTR);
    }
    if let Some(w) = p.wcap {
        k = k.min(w.max(1));
    }
    for x in p.wcuts.iter().chain(p.weintr.iter()) {
        if *x > p.written {
            k = k.min(*x - p.written);
        }
    }
    if p.window > 0 && !p.rclosed {
        let queued: usize = p.chunks.iter().map(|c| c.len()).sum();
        if queued >= p.window {
            return Err(libc::EAGAIN);
        }
        k = k.min(p.window - queued);
    }
    if let Some(f) = p.wfail_after {
        if p.written >= f {
            return Err(libc::EPIPE);
        }
        k = k.min(f - p.written);
    }
    if p.rclosed {
        p.dead_writes += 1;
        if p.dead_writes > 1 {
            return Err(libc::EPIPE);
        }
        p.written += k;
        return Ok(k);
    }
    p.written += k;
    p.chunks.push_back(data[..k].to_vec());
    wake_conn(c);
    Ok(k)
}

fn do_shutdown(c: usize, side: usize, how: i32) {
    let now = rt().now;
    let n = &mut net().conns[c];
    if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
        if !n.pipe[side].fin && !n.closed[side] {
            n.closed_at[side] = now;
        }
        n.pipe[side].fin = true;
    }
    if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
        n.pipe[1 - side].rclosed = true;
        n.pipe[1 - side].chunks.clear();
    }
    wake_conn(c);
}

fn do_close(c: usize, side: usize) {
    let now = rt().now;
    let n = &mut net().conns[c];
    if !n.pipe[side].fin {
        n.closed_at[side] = now;
    }
    n.pipe[side].fin = true;
    n.pipe[1 - side].rclosed = true;
    n.pipe[1 - side].chunks.clear();
    n.closed[side] = true;
    wake_conn(c);
}

// ------------------------------------------------------------------ interposed calls
fn r(x: i64) -> i32 {
    if x < 0 {
        errno(-x as i32)
    } else {
        x as i32
    }
}
fn rs(x: i64) -> isize {
    if x < 0 {
        errno(-x as i32) as isize
    } else {
        x as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, ty: i32, proto: i32) -> i32 {
    if controlled() && (domain == libc::AF_INET || domain == libc::AF_INET6) {
        let _g = Guard::new();
        let d = new_desc(Obj::New);
        if ty & libc::SOCK_NONBLOCK != 0 {
            net().descs[d].nonblock = true;
        }
        return new_fd(d);
    }
    r(raw6(libc::SYS_socket, domain as i64, ty as i64, proto as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, a: *const libc::sockaddr, l: libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        match desc(fd) {
            Some(d) => {
                let mut ad = read_addr(a);
                if net().foreign.contains(&ad.0) {
                    return errno(libc::EADDRNOTAVAIL);
                }
                if find_listener(ad.1).is_some() {
                    return errno(libc::EADDRINUSE);
                }
                if ad.1 == 0 {
                    net().next_port += 1;
                    ad.1 = net().next_port;
                }
                d.bound = Some(ad);
                return 0;
            }
            None => return errno(libc::EBADF),
        }
    }
    r(raw6(libc::SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: i32, backlog: i32) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        point(K_NET, true);
        match desc(fd) {
            Some(d) => {
                let (ip, port) = d.bound.unwrap_or((0, 0));
                if net().unlistenable.contains(&port) {
                    return errno(libc::EADDRINUSE);
                }
                net().listeners.push(Listener { port, ip, queue: VecDeque::new(), open: true });
                d.obj = Obj::Listener(net().listeners.len() - 1);
                wake(APP_KEY, usize::MAX);
                return 0;
            }
            None => return errno(libc::EBADF),
        }
    }
    r(raw6(libc::SYS_listen, fd as i64, backlog as i64, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t, flags: i32) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        point(K_NET, true);
        let li = match desc(fd).map(|d| d.obj) {
            Some(Obj::Listener(li)) => li,
            _ => return errno(libc::EINVAL),
        };
        let nb = desc(fd).unwrap().nonblock;
        loop {
            if !net().listeners[li].queue.is_empty() {
                let k = net().accepts;
                net().accepts += 1;
                if net().refuse_accepts == u64::MAX || k < 64 && net().refuse_accepts >> k & 1 == 1 {
                    return errno(net().accept_errno);
                }
            }
            if let Some(c) = net().listeners[li].queue.pop_front() {
                let d = new_desc(Obj::Stream(c, 0));
                if flags & libc::SOCK_NONBLOCK != 0 {
                    net().descs[d].nonblock = true;
                }
                net().conns[c].refs[0] += 1;
                let (ip, port) = net().conns[c].addr[1];
                write_addr(a, l, ip, port);
                return new_fd(d);
            }
            if nb {
                return errno(libc::EAGAIN);
            }
            block(lkey(li), None, "accept");
        }
    }
    r(raw6(libc::SYS_accept4, fd as i64, a as i64, l as i64, flags as i64, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i32 {
    accept4(fd, a, l, 0)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, l: libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        point(K_NET, true);
        let ad = read_addr(a);
        let n = net();
        n.connects.push(ad);
        if n.refuse {
            return errno(libc::ECONNREFUSED);
        }
        match find_listener(ad.1) {
            None => return errno(libc::ECONNREFUSED),
            Some(li) => {
                n.next_port += 1;
                let p = n.next_port;
                let c = make_conn(li, (0x7f000001, p));
                n.conns[c].refs[1] += 1;
                if let Some(d) = &n.dial {
                    d(&mut n.conns[c].pipe[1]);
                }
                desc(fd).unwrap().obj = Obj::Stream(c, 1);
                return 0;
            }
        }
    }
    r(raw6(libc::SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        return match desc(fd).map(|d| d.obj) {
            Some(Obj::Stream(c, s)) => {
                if net().conns[c].closed[1 - s] && net().conns[c].pipe[1 - s].rst {
                    return errno(libc::ENOTCONN);
                }
                let (ip, port) = net().conns[c].addr[1 - s];
                write_addr(a, l, ip, port);
                0
            }
            _ => errno(libc::ENOTCONN),
        };
    }
    r(raw6(libc::SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        return match desc(fd).map(|d| d.obj) {
            Some(Obj::Stream(c, s)) => {
                let (ip, port) = net().conns[c].addr[s];
                write_addr(a, l, ip, port);
                0
            }
            Some(Obj::Listener(li)) => {
                write_addr(a, l, net().listeners[li].ip, net().listeners[li].port);
                0
            }
            _ => {
                write_addr(a, l, 0, 0);
                0
            }
        };
    }
    r(raw6(libc::SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0))
}

unsafe fn sim_read(fd: i32, buf: *mut u8, len: usize, peek: bool, dontwait: bool) -> isize {
    let _g = Guard::new();
    point(K_NET, false);
    let (obj, nb, to) = match desc(fd) {
        Some(d) => (d.obj, d.nonblock || dontwait, d.rcvtimeo),
        None => return errno(libc::EBADF) as isize,
    };
    let (c, s) = match obj {
        Obj::Stream(c, s) => (c, s),
        _ => return errno(libc::ENOTCONN) as isize,
    };
    let dl = if to > 0 { Some(rt().now + to) } else { None };
    loop {
        match do_read(c, s, len, peek) {
            Rd::Data(v) => {
                if !peek {
                    rt().progress += 1;
                }
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
                return v.len() as isize;
            }
            Rd::Eof => return 0,
            Rd::Reset => return errno(libc::ECONNRESET) as isize,
            Rd::Wait => {
                if len == 0 {
                    return 0;
                }
                if nb {
                    yield_now(true);
                    return errno(libc::EAGAIN) as isize;
                }
                if !block(key(c, s), dl, "recv") {
                    return errno(libc::EAGAIN) as isize;
                }
            }
        }
    }
}

unsafe fn sim_write(fd: i32, buf: *const u8, len: usize) -> isize {
    let _g = Guard::new();
    point(K_NET, true);
    let obj = match desc(fd) {
        Some(d) => d.obj,
        None => return errno(libc::EBADF) as isize,
    };
    let (c, s) = match obj {
        Obj::Stream(c, s) => (c, s),
        _ => return errno(libc::EPIPE) as isize,
    };
    let (nb, to) = desc(fd).map_or((false, 0), |d| (d.nonblock, d.sndtimeo));
    let dl = if to > 0 { Some(rt().now + to) } else { None };
    loop {
        match do_write(c, s, std::slice::from_raw_parts(buf, len)) {
            Ok(k) => return k as isize,
            Err(libc::EAGAIN) if nb => {
                yield_now(true);
                return errno(libc::EAGAIN) as isize;
            }
            Err(libc::EAGAIN) => {
                if !block(key(c, s), dl, "send") {
                    return errno(libc::EAGAIN) as isize;
                }
            }
            Err(e) => return errno(e) as isize,
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, len: usize, flags: i32) -> isize {
    if sim(fd) {
        return sim_read(fd, buf, len, flags & libc::MSG_PEEK != 0, flags & libc::MSG_DONTWAIT != 0);
    }
    rs(raw6(libc::SYS_recvfrom, fd as i64, buf as i64, len as i64, flags as i64, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, len: usize, flags: i32) -> isize {
    if sim(fd) {
        return sim_write(fd, buf, len);
    }
    rs(raw6(libc::SYS_sendto, fd as i64, buf as i64, len as i64, flags as i64, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if sim(fd) {
        return sim_read(fd, buf, len, false, false);
    }
    rs(raw6(libc::SYS_read, fd as i64, buf as i64, len as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    if sim(fd) {
        return sim_write(fd, buf, len);
    }
    if fd > 2 && controlled() && net().file_points {
        let _g = Guard::new();
        point(K_NET, true);
    }
    rs(raw6(libc::SYS_write, fd as i64, buf as i64, len as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim(fd) {
        for i in 0..n as usize {
            if (*iov.add(i)).iov_len > 0 {
                return sim_read(fd, (*iov.add(i)).iov_base as *mut u8, (*iov.add(i)).iov_len, false, false);
            }
        }
        return 0;
    }
    rs(raw6(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim(fd) {
        let mut v = vec![];
        for i in 0..n as usize {
            v.extend_from_slice(std::slice::from_raw_parts((*iov.add(i)).iov_base as *const u8, (*iov.add(i)).iov_len));
        }
        return sim_write(fd, v.as_ptr(), v.len());
    }
    rs(raw6(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        point(K_NET, true);
        return match desc(fd).map(|d| d.obj) {
            Some(Obj::Stream(c, s)) => {
                let cn = &net().conns[c];
                if (cn.pipe[s].fin && cn.pipe[1 - s].rclosed) || cn.pipe[1 - s].rst {
                    return errno(libc::ENOTCONN);
                }
                do_shutdown(c, s, how);
                0
            }
            _ => errno(libc::ENOTCONN),
        };
    }
    r(raw6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        if cur() >= 0 {
            point(K_NET, true);
        }
        let n = net();
        let i = (fd - FD0) as usize;
        match n.fds.get(i).copied().flatten() {
            Some(d) => {
                n.fds[i] = None;
                n.descs[d].refs -= 1;
                if n.descs[d].refs == 0 {
                    match n.descs[d].obj {
                        Obj::Stream(c, s) => do_close(c, s),
                        Obj::Listener(l) => n.listeners[l].open = false,
                        Obj::New => {}
                    }
                }
                return 0;
            }
            None => return errno(libc::EBADF),
        }
    }
    r(raw6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        let n = net();
        let i = (fd - FD0) as usize;
        let d = match n.fds.get(i).copied().flatten() {
            Some(d) => d,
            None => return errno(libc::EBADF),
        };
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let k = n.dups;
                n.dups += 1;
                if n.refuse_dups == u64::MAX || k < 64 && n.refuse_dups >> k & 1 == 1 {
                    return errno(libc::EMFILE);
                }
                n.descs[d].refs += 1;
                new_fd(d)
            }
            libc::F_GETFL => {
                libc::O_RDWR | if n.descs[d].nonblock { libc::O_NONBLOCK } else { 0 }
            }
            libc::F_SETFL => {
                n.descs[d].nonblock = arg as i32 & libc::O_NONBLOCK != 0;
                0
            }
            _ => 0,
        };
    }
    r(raw6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: i64) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        if req == libc::FIONBIO as u64 {
            let v = *(arg as *const i32);
            if let Some(d) = desc(fd) {
                d.nonblock = v != 0;
            }
        }
        return 0;
    }
    r(raw6(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, val: *const libc::c_void, len: libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        if level == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
            let tv = &*(val as *const libc::timeval);
            let ns = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
            if let Some(d) = desc(fd) {
                if opt == libc::SO_RCVTIMEO {
                    d.rcvtimeo = ns
                } else {
                    d.sndtimeo = ns
                }
            }
        }
        return 0;
    }
    r(raw6(libc::SYS_setsockopt, fd as i64, level as i64, opt as i64, val as i64, len as i64, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, opt: i32, val: *mut libc::c_void, len: *mut libc::socklen_t) -> i32 {
    if sim(fd) {
        let _g = Guard::new();
        if let Some(d) = desc(fd) {
            if level == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
                let ns = if opt == libc::SO_RCVTIMEO { d.rcvtimeo } else { d.sndtimeo };
                *(val as *mut libc::timeval) = libc::timeval { tv_sec: (ns / 1_000_000_000) as i64, tv_usec: (ns % 1_000_000_000 / 1000) as i64 };
                *len = 16;
                return 0;
            }
        }
        *(val as *mut i32) = 0;
        *len = 4;
        return 0;
    }
    r(raw6(libc::SYS_getsockopt, fd as i64, level as i64, opt as i64, val as i64, len as i64, 0))
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if controlled() && n > 0 && sim((*fds).fd) {
        let _g = Guard::new();
        point(K_NET, false);
        let dl = if timeout >= 0 { Some(rt().now + timeout as u64 * 1_000_000) } else { None };
        loop {
            let mut ready = 0;
            for i in 0..n as usize {
                let p = &mut *fds.add(i);
                p.revents = 0;
                match desc(p.fd).map(|d| d.obj) {
                    Some(Obj::Stream(c, s)) => {
                        let cn = &net().conns[c];
                        let inp = &cn.pipe[1 - s];
                        if !inp.chunks.is_empty() || inp.fin || inp.rst {
                            p.revents |= libc::POLLIN;
                        }
                        if inp.rst {
                            p.revents |= libc::POLLERR;
                        }
                        p.revents |= libc::POLLOUT;
                    }
                    Some(Obj::Listener(l)) => {
                        if !net().listeners[l].queue.is_empty() {
                            p.revents |= libc::POLLIN;
                        }
                    }
                    _ => p.revents |= libc::POLLNVAL,
                }
                p.revents &= p.events | libc::POLLERR | libc::POLLHUP | libc::POLLNVAL;
                if p.revents != 0 {
                    ready += 1;
                }
            }
            if ready > 0 {
                return ready;
            }
            if timeout == 0 {
                yield_now(true);
                return 0;
            }
            if !block(POLLKEY, dl, "poll") {
                return 0;
            }
        }
    }
    r(raw6(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0))
}

// ------------------------------------------------------------------ resolver
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, service: *const libc::c_char, _hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> i32 {
    let _g = Guard::new();
    if node.is_null() {
        return libc::EAI_NONAME;
    }
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().to_string();
    let port: u16 = if service.is_null() { 0 } else { std::ffi::CStr::from_ptr(service).to_string_lossy().parse().unwrap_or(0) };
    net().resolved.push(name.clone());
    let ips: Vec<std::net::IpAddr> = match name.parse::<std::net::IpAddr>() {
        Ok(a) => vec![a],
        Err(_) => match (net().answers.get(&name), net().hosts.get(&name)) {
            (Some(l), _) => l.clone(),
            (None, Some(ip)) => vec![std::net::IpAddr::V4((*ip).into())],
            (None, None) => return libc::EAI_NONAME,
        },
    };
    let mut first: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let ai = libc::calloc(1, std::mem::size_of::<libc::addrinfo>()) as *mut libc::addrinfo;
        let sa = libc::calloc(1, std::mem::size_of::<libc::sockaddr_in6>()) as *mut libc::sockaddr;
        let mut l = 0;
        match ip {
            std::net::IpAddr::V4(a) => {
                let s = sa as *mut libc::sockaddr_in;
                (*s).sin_family = libc::AF_INET as u16;
                (*s).sin_port = port.to_be();
                (*s).sin_addr.s_addr = u32::from(*a).to_be();
                l = std::mem::size_of::<libc::sockaddr_in>() as u32;
                (*ai).ai_family = libc::AF_INET;
            }
            std::net::IpAddr::V6(a) => {
                write_addr6(sa, &mut l, *a, port);
                (*ai).ai_family = libc::AF_INET6;
            }
        }
        (*ai).ai_socktype = libc::SOCK_STREAM;
        (*ai).ai_protocol = libc::IPPROTO_TCP;
        (*ai).ai_addrlen = l;
        (*ai).ai_addr = sa;
        (*ai).ai_next = first;
        first = ai;
    }
    *res = first;
    if first.is_null() {
        return libc::EAI_NONAME;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(ai: *mut libc::addrinfo) {
    let mut ai = ai;
    while !ai.is_null() {
        let next = (*ai).ai_next;
        libc::free((*ai).ai_addr as *mut _);
        libc::free(ai as *mut _);
        ai = next;
    }
}

// ------------------------------------------------------------------ harness side
/// One end of a simulated connection held by the harness.
pub struct Peer {
    pub c: usize,
    pub side: usize,
}

pub fn wait_listener(port: u16) -> bool {
    wait_until(Some(10_000), "wait listener", || find_listener(port).is_some())
}

/// Connect to a listener of the code under test.
pub fn peer_connect_from(port: u16, from: (u32, u16)) -> Peer {
    // threads of earlier connections that end with time (a timer that sleeps) get that time
    let mut n = live_threads();
    while n > 180 {
        settle(20);
        let m = live_threads();
        if m >= n {
            break;
        }
        n = m;
    }
    let _g = Guard::new();
    point(K_NET, true);
    let li = match find_listener(port) {
        Some(l) => l,
        None => panic!("harness: no listener on {}", port),
    };
    let c = make_conn(li, from);
    Peer { c, side: 1 }
}

pub fn peer_connect(port: u16) -> Peer {
    let n = net();
    n.next_port = n.next_port.wrapping_add(1).max(1025);
    let p = n.next_port;
    peer_connect_from(port, (0x7f000001, p))
}

/// Harness listener (a simulated remote server).
pub struct Remote {
    pub l: usize,
}
pub fn remote_listen(port: u16) -> Remote {
    let n = net();
    n.listeners.push(Listener { port, ip: 0, queue: VecDeque::new(), open: true });
    Remote { l: n.listeners.len() - 1 }
}
impl Remote {
    pub fn accept(&self, ms: Option<u64>) -> Option<Peer> {
        let l = self.l;
        if wait_until(ms, "remote accept", || !net().listeners[l].queue.is_empty()) {
            let c = net().listeners[l].queue.pop_front().unwrap();
            Some(Peer { c, side: 0 })
        } else {
            None
        }
    }
    pub fn close(&self) {
        net().listeners[self.l].open = false;
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Got {
    Data(Vec<u8>),
    Eof,
    Reset,
    Timeout,
}

impl Peer {
    fn point(&self) {
        let _g = Guard::new();
        point(K_NET, true);
    }
    pub fn conn(&self) -> &'static mut Conn {
        &mut net().conns[self.c]
    }
    pub fn out(&self) -> &'static mut Pipe {
        &mut net().conns[self.c].pipe[self.side]
    }
    pub fn inp(&self) -> &'static mut Pipe {
        &mut net().conns[self.c].pipe[1 - self.side]
    }
    /// One TCP segment.
    pub fn send(&self, data: &[u8]) {
        self.point();
        let _g = Guard::new();
        let p = self.out();
        if !p.rclosed && !data.is_empty() {
            p.chunks.push_back(data.to_vec());
        }
        wake_conn(self.c);
    }
    /// Several segments, all queued at once: each read returns at most one.
    pub fn send_segments(&self, segs: &[&[u8]]) {
        self.point();
        let _g = Guard::new();
        let p = self.out();
        for s in segs {
            if !p.rclosed && !s.is_empty() {
                p.chunks.push_back(s.to_vec());
            }
        }
        wake_conn(self.c);
    }
    pub fn shutdown_write(&self) {
        self.point();
        let _g = Guard::new();
        do_shutdown(self.c, self.side, libc::SHUT_WR);
    }
    pub fn close(&self) {
        self.point();
        let _g = Guard::new();
        do_close(self.c, self.side);
    }
    pub fn reset(&self) {
        self.point();
        let _g = Guard::new();
        let cn = self.conn();
        cn.pipe[self.side].rst = true;
        cn.pipe[self.side].fin = true;
        cn.pipe[self.side].chunks.clear();
        cn.pipe[1 - self.side].rclosed = true;
        cn.pipe[1 - self.side].dead_writes = 1;
        cn.pipe[1 - self.side].chunks.clear();
        cn.closed[self.side] = true;
        wake_conn(self.c);
    }
    pub fn recv(&self, ms: Option<u64>) -> Got {
        let (c, side) = (self.c, self.side);
        let mut got = Got::Timeout;
        wait_until(ms, "peer recv", || match do_read(c, side, usize::MAX, false) {
            Rd::Data(v) => {
                got = Got::Data(v);
                true
            }
            Rd::Eof => {
                got = Got::Eof;
                true
            }
            Rd::Reset => {
                got = Got::Reset;
                true
            }
            Rd::Wait => false,
        });
        got
    }
    /// Everything until EOF/reset/quiescence for `ms`.
    pub fn recv_all(&self, ms: u64) -> (Vec<u8>, Got) {
        let mut v = vec![];
        loop {
            match self.recv(Some(ms)) {
                Got::Data(d) => v.extend(d),
                g => return (v, g),
            }
        }
    }
    /// Has the other side closed (or half-closed) its direction and everything been read?
    pub fn at_eof(&self) -> bool {
        let p = self.inp();
        p.fin && p.chunks.is_empty()
    }
    /// Virtual time at which the other side closed.
    pub fn other_closed_at(&self) -> u64 {
        self.conn().closed_at[1 - self.side]
    }
    /// The same on the clock of `now_ms`; None: not closed.
    pub fn other_closed_ms(&self) -> Option<u64> {
        match self.other_closed_at() {
            0 => None,
            t => Some((t - 1_600_000_000_000_000_000) / 1_000_000),
        }
    }
}

//! Driving an HttpServer of the code under test over the simulated network.
use crate::explore::*;
use crate::net::*;
use crate::rt::*;
use starry::{Context, HttpServer};

pub type Handler = fn(&mut Context);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tag {
    H(usize), // handler n
    F(usize), // filter n
}

type Act = Box<dyn Fn(&mut Context, Tag)>;
static mut ACT: Option<Act> = None;

/// What every handler and filter does. Handlers are plain function pointers, so it lives in a static.
pub fn on_call<F: Fn(&mut Context, Tag) + 'static>(f: F) {
    unsafe { ACT = Some(Box::new(f)) }
}
fn act(c: &mut Context, t: Tag) {
    unsafe {
        if let Some(a) = ACT.as_ref() {
            a(c, t)
        }
    }
}
fn h<const N: usize>(c: &mut Context) {
    act(c, Tag::H(N))
}
fn fl<const N: usize>(c: &mut Context) {
    act(c, Tag::F(N))
}
macro_rules! table {
    ($f:ident) => {
        [
            $f::<0>, $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>,
            $f::<12>, $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>, $f::<18>, $f::<19>, $f::<20>, $f::<21>, $f::<22>, $f::<23>,
            $f::<24>, $f::<25>, $f::<26>, $f::<27>, $f::<28>, $f::<29>, $f::<30>, $f::<31>, $f::<32>, $f::<33>, $f::<34>, $f::<35>,
            $f::<36>, $f::<37>, $f::<38>, $f::<39>, $f::<40>, $f::<41>, $f::<42>, $f::<43>, $f::<44>, $f::<45>, $f::<46>, $f::<47>,
        ]
    };
}
pub const HS: [Handler; 48] = table!(h);
pub const FS: [Handler; 48] = table!(fl);

/// Harness record shared between handlers and the main harness thread. Only the thread holding the
/// scheduler token runs, so plain statics are enough.
pub struct Cell<T>(pub std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
impl<T> Cell<T> {
    pub const fn new(t: T) -> Self {
        Cell(std::cell::UnsafeCell::new(t))
    }
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub const PORT: u16 = 8080;
static CONNECT_PORT: Cell<u16> = Cell::new(PORT);
/// Port `Cl::new` and `once` connect to.
pub fn set_port(p: u16) {
    *CONNECT_PORT.get() = p;
}

pub fn new_server(pool: usize) -> HttpServer {
    let mut s = HttpServer::new();
    s.set_pool_size(pool);
    s.set_log(log::LevelFilter::Off, "log".to_string(), 1024, 7);
    s
}

/// Start listening (in a harness thread: `listener` never returns).
pub fn start_on(s: &HttpServer, port: u16) {
    let s = s.clone();
    spawn_harness(move || {
        glue::listen(&s, port);
    });
    assert!(wait_listener(port), "server does not listen");
}
pub fn start(s: &HttpServer) {
    start_on(s, PORT)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub version: String,
    pub status: u32,
    pub phrase: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn all(&self, k: &str) -> Vec<&str> {
        self.headers.iter().filter(|(a, _)| a.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str()).collect()
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.all(k).first().copied()
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).to_string()
    }
}

/// Strict parse of one HTTP/1.x message at the start of `b`. Ok(None): incomplete. Returns the number
/// of bytes used. Without Content-Length the body is empty (this server always states the length).
pub fn parse_resp(b: &[u8]) -> Result<Option<(Resp, usize)>, String> {
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i,
        None => return Ok(None),
    };
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "head is not UTF-8".to_string())?;
    let mut lines = head.split("\r\n");
    let sl = lines.next().unwrap_or("");
    let mut p = sl.splitn(3, ' ');
    let version = p.next().unwrap_or("").to_string();
    if !version.starts_with("HTTP/") {
        return Err(format!("bad status line {:?}", sl));
    }
    let status = p.next().and_then(|x| if x.len() == 3 { x.parse::<u32>().ok() } else { None }).ok_or(format!("bad status line {:?}", sl))?;
    let phrase = p.next().ok_or(format!("bad status line {:?}", sl))?.to_string();
    let mut headers = vec![];
    for l in lines {
        let (k, v) = l.split_once(':').ok_or(format!("bad header line {:?}", l))?;
        if k.is_empty() || k.contains(|c: char| c == ' ' || c == '\n' || c == '\r') {
            return Err(format!("bad header name {:?}", l));
        }
        headers.push((k.to_string(), v.strip_prefix(' ').unwrap_or(v).to_string()));
    }
    let cls: Vec<&String> = headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).map(|(_, v)| v).collect();
    let n = match cls.len() {
        0 => 0,
        1 => cls[0].parse::<usize>().map_err(|_| format!("bad Content-Length {:?}", cls[0]))?,
        _ => return Err("several Content-Length headers".into()),
    };
    if b.len() < end + 4 + n {
        return Ok(None);
    }
    Ok(Some((Resp { version, status, phrase, headers, body: b[end + 4..end + 4 + n].to_vec() }, end + 4 + n)))
}

/// A client connection that keeps unread bytes.
pub struct Cl {
    pub p: Peer,
    pub buf: Vec<u8>,
}

impl Cl {
    pub fn new() -> Cl {
        Cl { p: peer_connect(*CONNECT_PORT.get()), buf: vec![] }
    }
    pub fn from(ip: u32, port: u16) -> Cl {
        Cl { p: peer_connect_from(*CONNECT_PORT.get(), (ip, port)), buf: vec![] }
    }
    pub fn send(&self, b: &[u8]) {
        self.p.send(b)
    }
    /// Next complete response; Err(what happened, bytes so far).
    pub fn next(&mut self, ms: u64) -> Result<Resp, String> {
        loop {
            match parse_resp(&self.buf) {
                Err(e) => return Err(format!("malformed response: {}; bytes {:?}", e, show(&self.buf))),
                Ok(Some((r, n))) => {
                    self.buf.drain(..n);
                    return Ok(r);
                }
                Ok(None) => {}
            }
            match self.p.recv(Some(ms)) {
                Got::Data(d) => self.buf.extend(d),
                g => return Err(format!("{:?} after {:?}", g, show(&self.buf))),
            }
        }
    }
    /// The connection is over and nothing more came.
    pub fn closed(&mut self, ms: u64) -> Result<(), String> {
        loop {
            match self.p.recv(Some(ms)) {
                Got::Data(d) => self.buf.extend(d),
                Got::Eof | Got::Reset => break,
                Got::Timeout => return Err(format!("connection still open, unread {:?}", show(&self.buf))),
            }
        }
        if !self.buf.is_empty() {
            return Err(format!("extra bytes {:?}", show(&self.buf)));
        }
        Ok(())
    }
}

/// One connection, one request, one response, then the server closes.
pub fn once(req: &[u8]) -> Result<Resp, String> {
    once_segs(&[req])
}
pub fn once_segs(segs: &[&[u8]]) -> Result<Resp, String> {
    let mut c = Cl::new();
    c.p.send_segments(segs);
    let r = c.next(5_000);
    let r = match r {
        Ok(r) => {
            c.closed(5_000)?;
            Ok(r)
        }
        Err(e) => Err(e),
    };
    c.p.close();
    r
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(700) {
        for e in std::ascii::escape_default(c) {
            s.push(e as char)
        }
    }
    if b.len() > 700 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// GET without keep-alive.
pub fn get(target: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", target).into_bytes()
}
pub fn req(method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nHost: h\r\n", method, target).into_bytes();
    for (k, x) in headers {
        v.extend(format!("{}: {}\r\n", k, x).bytes());
    }
    if !body.is_empty() {
        v.extend(format!("Content-Length: {}\r\n", body.len()).bytes());
    }
    v.extend(b"\r\n");
    v.extend(body);
    v
}

/// No thread of the code under test may have panicked.
pub fn no_panics() -> Result<(), Verdict> {
    if !panics().is_empty() {
        return fail("server-panic", format!("{:?}", panics()));
    }
    Ok(())
}

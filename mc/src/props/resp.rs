//! P15 response bytes, P16 compression, P21 Set-Cookie.
use super::req::*;
use super::util::{civil, http_date};
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::header::cookie::SameSite;
use starry::header::{ContentType, Cookie, CookieBuilder};
use starry::utils::Time;
use starry::{Context, Extend, HttpServer, Response, Status, Version};
use std::fmt::Write as _;
use std::io::Read;

/// Every status with its standard phrase.
pub fn statuses() -> Vec<(u16, Status, &'static str)> {
    let t: [(u16, &'static str); 60] = [
        (100, "Continue"), (101, "Switching Protocols"), (102, "Processing"), (200, "OK"), (201, "Created"), (202, "Accepted"),
        (203, "Non Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"), (207, "Multi-Status"),
        (208, "Already Reported"), (226, "IM Used"), (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"),
        (304, "Not Modified"), (305, "Use Proxy"), (307, "Temporary Redirect"), (308, "Permanent Redirect"), (400, "Bad Request"),
        (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"),
        (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"), (409, "Conflict"), (410, "Gone"),
        (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"), (414, "URI Too Long"), (415, "Unsupported Media Type"),
        (416, "Range Not Satisfiable"), (417, "Expectation Failed"), (418, "I'm a teapot"), (421, "Misdirected Request"), (422, "Unprocessable Entity"),
        (423, "Locked"), (424, "Failed Dependency"), (426, "Upgrade Required"), (428, "Precondition Required"), (429, "Too Many Requests"),
        (431, "Request Header Fields Too Large"), (451, "Unavailable For Legal Reasons"), (500, "Internal Server Error"), (501, "Not Implemented"),
        (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Gateway Timeout"), (505, "HTTP Version Not Supported"),
        (506, "Variant Also Negotiates"), (507, "Insufficient Storage"), (508, "Loop Detected"), (510, "Not Extended"), (511, "Network Authentication Required"),
    ];
    t.iter().map(|&(c, p)| (c, Status::from_code(c).unwrap_or_else(|_| panic!("status {} is not known", c)), p)).collect()
}

/// Status texts are compared the way HTTP does: the phrase is for people, so "Non-Authoritative
/// Information" and "Non Authoritative Information" are both fine.
fn phrase_ok(got: &str, want: &str) -> bool {
    let n = |s: &str| s.to_lowercase().replace('-', " ");
    n(got) == n(want)
}

pub fn big(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; x as u8 }).collect()
}
pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

// ------------------------------------------------------------------ response operations
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    St(u16),
    V10,
    V11,
    Add(&'static str, &'static str),
    AddS(&'static str, &'static str),
    Set(&'static str, &'static str),
    SetS(&'static str, &'static str),
    Ck(u8),
    Ct(u8),
    B(u8),
    Bs(u8),
    BT(u8, u8),
    BsT(u8, u8),
    Send,
}
use Op::*;

const OPS: [Op; 24] = [
    St(404), St(201), V10, V11, Add("X-A", "1"), AddS("X-A", "2"), Add("X-B", "b: c"), Set("X-A", "3"), SetS("X-A", "4"), SetS("X-C", ""),
    Ck(0), Ck(1), Ct(1), Ct(3), B(1), Bs(2), BT(3, 1), BsT(4, 2), B(0), Bs(5), BT(6, 4), Send, SetS("Content-Type", "a/b"), St(500),
];

pub fn cts(i: u8) -> (ContentType, &'static str) {
    match i {
        0 => (ContentType::TEXT_PLAIN, "text/plain"),
        1 => (ContentType::APPLICATION_JSON, "application/json"),
        2 => (ContentType::IMAGE_PNG, "image/png"),
        3 => (ContentType::custom_str("text/x-own; charset=utf-8"), "text/x-own; charset=utf-8"),
        4 => (ContentType::multipart_form_data_str("xyz"), "multipart/form-data; boundary=xyz"),
        5 => (ContentType::TEXT_HTML, "text/html"),
        6 => (ContentType::TEXT_XML, "text/xml"),
        7 => (ContentType::IMAGE_GIF, "image/gif"),
        8 => (ContentType::IMAGE_JPEG, "image/jpeg"),
        9 => (ContentType::APPLICATION_XHTML_XML, "application/xhtml+xml"),
        10 => (ContentType::APPLICATION_XML, "application/xml"),
        11 => (ContentType::APPLICATION_ATOM_XML, "application/atom+xml"),
        12 => (ContentType::APPLICATION_PDF, "application/pdf"),
        13 => (ContentType::APPLICATION_MS_WORD, "application/msword"),
        14 => (ContentType::APPLICATION_OCTET_STREAM, "application/octet-stream"),
        15 => (ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED, "application/x-www-form-urlencoded"),
        16 => (ContentType::custom("video/x".to_string()), "video/x"),
        _ => (ContentType::multipart_form_data("--a'b".to_string()), "multipart/form-data; boundary=--a'b"),
    }
}
const NCT: u64 = 18;

fn ck(i: u8) -> (Cookie, &'static str) {
    match i {
        0 => (Cookie::new("c".into(), "1".into()), "c=1"),
        _ => (CookieBuilder::new().name_value("d".into(), "x=y".into()).path("/p".into()).secure(true).build(), "d=x=y; Path=/p; Secure"),
    }
}

pub fn bodies() -> &'static Vec<&'static [u8]> {
    static mut B: Option<Vec<&'static [u8]>> = None;
    unsafe {
        if B.is_none() {
            B = Some(vec![
                b"",
                b"hello",
                b"<p>a</p>\r\n\r\nHTTP/1.1 200 OK\r\n\r\n",
                b"\x00\xff\r\n\x80",
                leak(vec![b'a'; 3000]),
                leak(big(1500, 7)),
                b"x",
                leak(big(64, 3)),
                leak(b"abcabcabcd".repeat(7)),
                leak(vec![b'z'; 40_000]),
                leak(big(20_000, 9)),
            ]);
        }
        B.as_ref().unwrap()
    }
}

pub fn apply(c: &mut Context, o: Op) {
    let b = bodies();
    match o {
        St(s) => c.resp_status(Status::from_code(s).unwrap()),
        V10 => c.resp_version(Version::HTTP_10),
        V11 => c.resp_version(Version::HTTP_11),
        Add(k, v) => c.resp_add_header(k.to_string(), v.to_string()),
        AddS(k, v) => c.resp_add_header_str(k, v),
        Set(k, v) => c.resp_set_header(k.to_string(), v.to_string()),
        SetS(k, v) => c.resp_set_header_str(k, v),
        Ck(i) => c.resp_add_cookie(ck(i).0),
        Ct(i) => c.resp_content_type(cts(i).0),
        B(i) => c.resp_body(b[i as usize].to_vec()),
        Bs(i) => c.resp_body_slice(b[i as usize]),
        BT(i, t) => c.resp_bodies(b[i as usize].to_vec(), cts(t).0),
        BsT(i, t) => c.resp_body_slices(b[i as usize], cts(t).0),
        Send => c.response(),
    }
}

/// The response these operations build.
pub struct Model {
    pub version: &'static str,
    pub status: u16,
    pub headers: Vec<(String, Vec<String>)>,
    pub ctype: String,
    pub body: Vec<u8>,
    pub sent: bool,
}

impl Model {
    pub fn new(reqv: &'static str) -> Model {
        Model { version: reqv, status: 200, headers: vec![], ctype: "text/plain".into(), body: vec![], sent: false }
    }
    fn entry(&mut self, k: &str) -> &mut Vec<String> {
        if let Some(i) = self.headers.iter().position(|h| h.0 == k) {
            return &mut self.headers[i].1;
        }
        self.headers.push((k.to_string(), vec![]));
        &mut self.headers.last_mut().unwrap().1
    }
    pub fn apply(&mut self, o: Op) {
        if self.sent {
            return;
        }
        match o {
            St(s) => self.status = s,
            V10 => self.version = "HTTP/1.0",
            V11 => self.version = "HTTP/1.1",
            Add(k, v) | AddS(k, v) => self.entry(k).push(v.to_string()),
            Set("Content-Type", v) | SetS("Content-Type", v) => self.ctype = v.to_string(),
            Set(k, v) | SetS(k, v) => *self.entry(k) = vec![v.to_string()],
            Ck(i) => self.entry("Set-Cookie").push(ck(i).1.to_string()),
            Ct(i) => self.ctype = cts(i).1.to_string(),
            B(i) | Bs(i) => {
                self.body = bodies()[i as usize].to_vec();
                self.ctype = "text/plain".into();
            }
            BT(i, t) | BsT(i, t) => {
                self.body = bodies()[i as usize].to_vec();
                self.ctype = cts(t).1.to_string();
            }
            Send => self.sent = true,
        }
    }
    /// Compare with what came over the wire; the body is compared by the caller when `coded`.
    pub fn check(&self, r: &Resp, kept: bool, coded: bool) -> Result<(), String> {
        if r.version != self.version || r.status != self.status as u32 {
            return Err(format!("status line {:?} {}, expected {} {}", r.version, r.status, self.version, self.status));
        }
        let p = statuses().iter().find(|s| s.0 == self.status).unwrap().2;
        if !phrase_ok(&r.phrase, p) {
            return Err(format!("phrase {:?}, expected {:?}", r.phrase, p));
        }
        let mut want: Vec<(String, String)> = vec![];
        for (k, vs) in &self.headers {
            for v in vs {
                want.push((k.clone(), v.clone()));
            }
        }
        want.push(("Content-Type".into(), self.ctype.clone()));
        if kept {
            want.push(("Connection".into(), "keep-alive".into()));
        }
        // values of one header in order; the order of different headers is free
        let mut got: Vec<(String, String)> = r.headers.iter().filter(|(k, v)| {
            !k.eq_ignore_ascii_case("Content-Length") && !(coded && k.eq_ignore_ascii_case("Content-Encoding")) && !(!kept && k.eq_ignore_ascii_case("Connection") && v == "close")
        }).map(|(k, v)| (want.iter().find(|w| w.0.eq_ignore_ascii_case(k)).map_or(k.clone(), |w| w.0.clone()), v.clone())).collect();
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
        if got != want {
            return Err(format!("headers {:?}, expected {:?}", got, want));
        }
        if r.all("Content-Length").len() != 1 {
            return Err(format!("Content-Length {:?}", r.all("Content-Length")));
        }
        if !coded && r.body != self.body {
            return Err(format!("body {:?}, expected {:?}", show(&r.body), show(&self.body)));
        }
        Ok(())
    }
}

/// Operations of the filter and of the handler of the next request.
static PLAN: Cell<(Vec<Op>, Vec<Op>)> = Cell::new((vec![], vec![]));

fn plan_server(compress: bool, ka: i64) -> HttpServer {
    on_call(|c, t| {
        let (f, h) = PLAN.get().clone();
        match t {
            Tag::F(_) => f.iter().for_each(|o| apply(c, *o)),
            Tag::H(_) => {
                h.iter().for_each(|o| apply(c, *o));
                c.response();
            }
        }
    });
    let mut s = new_server(2);
    s.set_keepalive(ka);
    if compress {
        s.set_compress();
    }
    let g = s.router("");
    g.get_wf("/f", HS[0], Extend::e1(vec![FS[0]]));
    g.get("/h", HS[0]);
    g.post("/h", HS[0]);
    start(&s);
    s
}

/// Returns the model of the response to the current PLAN
fn model(filter: bool, reqv: &'static str) -> Model {
    let (f, h) = PLAN.get().clone();
    let mut m = Model::new(reqv);
    if filter {
        f.iter().for_each(|o| m.apply(*o));
    }
    h.iter().for_each(|o| m.apply(*o));
    m
}

const VERS: [&str; 2] = ["HTTP/1.1", "HTTP/1.0"];

fn do_plan(f: Vec<Op>, h: Vec<Op>, reqv: &'static str, kept: bool, extra: &str, mode: &dyn Fn(&Cl)) -> Result<Resp, String> {
    let filter = !f.is_empty();
    *PLAN.get() = (f, h);
    let mut c = Cl::new();
    mode(&c);
    c.send(format!("GET {} {}\r\nHost: h\r\n{}{}\r\n", if filter { "/f" } else { "/h" }, reqv, if kept { "Connection: keep-alive\r\n" } else { "" }, extra).as_bytes());
    let r = c.next(5000)?;
    if kept {
        if !c.buf.is_empty() {
            return Err(format!("extra bytes {:?}", show(&c.buf)));
        }
        c.p.shutdown_write();
    }
    c.closed(40_000)?;
    c.p.close();
    Ok(r)
}

pub fn p15(r: &mut Run) {
    r.assume("framing headers (Content-Length, Connection, Transfer-Encoding) are not set by the handler itself; header names are written in one letter case");
    r.assume("the media type of a response is the one last given; the body operations without one give text/plain, as they are documented to");
    let k = OPS.len();
    let thorough = r.thorough;
    // all operation sequences, divided between filter and handler in every way
    for (kept, name) in [(false, "close"), (true, "keep-alive")] {
        let n = nstr(k, if thorough || !kept { 4 } else { 3 });
        r.enumerate(&format!("sequences-{}", name), n, 512, opts(), |lo, hi| {
            let _s = plan_server(false, 30_000);
            for it in lo..hi {
                at_item(it);
                let ops: Vec<Op> = nth(k, it).iter().map(|i| OPS[*i]).collect();
                for cut in 0..=ops.len() {
                    let (f, h) = (ops[..cut].to_vec(), ops[cut..].to_vec());
                    let v = VERS[if kept { 0 } else { (it % 2) as usize }];
                    let ctx = format!("{} filter {:?} handler {:?}", v, f, h);
                    let m = match do_plan(f, h, v, kept, "", &|_| ()) {
                        Ok(r) => model(cut > 0, v).check(&r, kept, false),
                        Err(e) => Err(e),
                    };
                    if let Err(e) = m {
                        return fail("response", format!("{}: {}", ctx, e));
                    }
                }
            }
            no_panics()?;
            Ok(0)
        });
    }
    // every status, media type and body, on both versions
    let st = statuses();
    let nb = bodies().len() as u64;
    let n = st.len() as u64 * 2 * 2 * 2;
    r.enumerate("statuses", n, 64, opts(), |lo, hi| {
        let _s = plan_server(false, 30_000);
        for it in lo..hi {
            at_item(it);
            let (s, v, kept, b) = (st[(it % st.len() as u64) as usize].0, VERS[(it / st.len() as u64 % 2) as usize], it / (2 * st.len() as u64) % 2 == 1, it / (4 * st.len() as u64));
            let kept = kept && v == "HTTP/1.1";
            let h = if b == 0 { vec![St(s)] } else { vec![B(1), St(s)] };
            let m = match do_plan(vec![], h, v, kept, "", &|_| ()) {
                Ok(r) => model(false, v).check(&r, kept, false),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("status", format!("status {} {}: {}", s, v, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    r.enumerate("types-and-bodies", NCT * nb * 5, 64, opts(), |lo, hi| {
        let _s = plan_server(false, 30_000);
        for it in lo..hi {
            at_item(it);
            let (t, b) = ((it % NCT) as u8, (it / NCT % nb) as u8);
            let h = match it / NCT / nb {
                0 => vec![BT(b, t)],
                1 => vec![BsT(b, t)],
                2 => vec![B(b), Ct(t)],
                3 => vec![Bs(b), Ct(t)],
                _ => vec![Ct(t), B(b)],
            };
            let ctx = format!("{:?} ({:?})", h, cts(t).1);
            let m = match do_plan(vec![], h, VERS[0], it % 2 == 0, "", &|_| ()) {
                Ok(r) => model(false, VERS[0]).check(&r, it % 2 == 0, false),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("type-or-body", format!("{}: {}", ctx, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // header values and names: every short value comes back as it was
    let alpha = ["a", ":", "=", " x", ";", ",", "\"", "é", "%"];
    let n = nstr(alpha.len(), if r.thorough { 5 } else { 4 });
    r.enumerate("header-values", n, 1024, opts(), |lo, hi| {
        static V: Cell<String> = Cell::new(String::new());
        on_call(|c, _| {
            let v = V.get().clone();
            c.resp_add_header("X-One".into(), v.clone());
            c.resp_set_header_str("x-two.3_", &v);
            c.resp_set_header_str("x-two.3_", &v);
            c.resp_add_header_str("X-One", "end");
            c.response();
        });
        let mut s = new_server(1);
        s.router("").get("/h", HS[0]);
        start(&s);
        for it in lo..hi {
            at_item(it);
            *V.get() = format!("v{}", cat(&alpha, &nth(alpha.len(), it)));
            let v = V.get().clone();
            match once(&get("/h")) {
                Ok(r) if r.all("X-One") == [v.as_str(), "end"] && r.all("x-two.3_") == [v.as_str()] => {}
                x => return fail("header-value", format!("value {:?}: {:?}", v, x)),
            }
        }
        no_panics()?;
        Ok(0)
    });
    // names and values with every pair of characters
    let np = n_pairs(3);
    r.enumerate("header-characters", np, 512, opts(), |lo, hi| {
        let _s = list_server();
        for it in lo..hi {
            at_item(it);
            let (a, b, t) = char_pair(it, 3);
            let h: Vec<(String, String)> = match t {
                0 => vec![("X-One".into(), format!("{}{}", a, b)), ("X-One".into(), format!("{}", b)), ("X-Two".into(), format!("{} {}", b, a))],
                1 => vec![("X-One".into(), format!("x {}, {}; y", a, b))],
                _ => {
                    if !token(&a) || !token(&b) {
                        continue;
                    }
                    vec![(format!("X{}{}", a, b), "1".into()), (format!("Y{}", a), format!("{}=2", b))]
                }
            };
            list_check(&h, &[], vec![], it % 4)?;
        }
        no_panics()?;
        Ok(0)
    });
    // many headers, values, cookies; long ones; large bodies
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 6 * 4, 32, opts(), |lo, hi| {
        let _s = list_server();
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 24];
            let mut h: Vec<(String, String)> = vec![];
            let mut ck = vec![];
            match it / 4 % 6 {
                0 => h = (0..n).map(|i| (format!("X-{}", i), format!("v{}", n - i))).collect(),
                1 => h = (0..n).map(|i| ("X-Same".to_string(), format!("v{}", i))).collect(),
                2 => h = (0..n).map(|i| (format!("X-{}", i % 7), format!("v{}", i))).collect(),
                3 => h = vec![("X-Long".into(), "v".repeat(n * 17 + 1)), (format!("X-{}", "n".repeat(n)), "1".into())],
                4 => ck = (0..n).map(|i| (format!("c{}", i), format!("v{}", i))).collect(),
                _ => ck = vec![("c".to_string(), "w".repeat(n * 13))],
            }
            list_check(&h, &ck, vec![b'b'; n % 3 * 50], it % 4)?;
        }
        no_panics()?;
        Ok(0)
    });
    let sizes = body_sizes(r.thorough);
    r.enumerate("body-sizes", sizes.len() as u64 * 4 * 2, 4, opts(), |lo, hi| {
        let _s = list_server();
        for it in lo..hi {
            at_item(it);
            let n = sizes[it as usize / 8];
            let b = if it / 4 % 2 == 0 { big(n, 5) } else { b"\r\n\r\nx".iter().cycle().take(n).copied().collect() };
            list_check(&[("X-A".to_string(), "1".to_string())], &[], b, it % 4)?;
        }
        no_panics()?;
        Ok(0)
    });
    // several responses on one connection: nothing of one leaks into the next
    let small: Vec<Vec<Op>> = vec![
        vec![], vec![St(404)], vec![V10], vec![Add("X-A", "1")], vec![Ck(1)], vec![BT(3, 1)], vec![Bs(2)], vec![Set("X-A", "9"), B(1), St(201)],
    ];
    let ns = small.len() as u64;
    let per = ns.pow(if r.thorough { 4 } else { 3 });
    r.enumerate("on-one-connection", per, 256, opts(), |lo, hi| {
        let _s = plan_server(false, 30_000);
        for it in lo..hi {
            at_item(it);
            let mut c = Cl::new();
            let mut x = it;
            let mut seq = vec![];
            for _ in 0..if per == ns.pow(4) { 4 } else { 3 } {
                seq.push(small[(x % ns) as usize].clone());
                x /= ns;
            }
            for (j, h) in seq.iter().enumerate() {
                *PLAN.get() = (vec![], h.clone());
                c.send(b"GET /h HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
                let m = match c.next(5000) {
                    Ok(r) => model(false, "HTTP/1.1").check(&r, true, false),
                    Err(e) => Err(e),
                };
                if let Err(e) = m {
                    return fail("leak", format!("responses {:?} on one connection, number {}: {}", seq, j, e));
                }
            }
            c.p.close();
        }
        no_panics()?;
        Ok(0)
    });
    // short writes: at most w bytes at a time; stopping at any one or two offsets; interrupted at any offset; a full window
    let plans: Vec<(Vec<Op>, Vec<Op>)> = vec![
        (vec![], vec![B(1)]),
        (vec![Add("X-A", "1"), St(404)], vec![Add("X-A", "2"), Ck(0), Ck(1), BT(2, 1)]),
        (vec![], vec![V10, BsT(3, 3)]),
        (vec![], vec![B(4)]),
        (vec![], vec![Bs(5)]),
        (vec![], vec![B(9)]),
    ];
    let np = plans.len();
    let caps: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 255, 256, 500, 1000, 1023, 1024, 4096, 8192, 30_000]).collect();
    let mut items: Vec<(usize, u8, usize, usize)> = vec![];
    for p in 0..np {
        for w in &caps {
            items.push((p, 0, *w, 0));
            items.push((p, 3, *w, 0));
        }
        let lim = if p < 3 { 330 } else if r.thorough { 3300 } else { 400 };
        for x in 1..lim {
            items.push((p, 1, x, 0));
            items.push((p, 2, x, 0));
            if p < 3 {
                for y in x + 1..lim {
                    if r.thorough || (x + y) % 3 == 0 {
                        items.push((p, 1, x, y));
                    }
                }
            }
        }
    }
    r.enumerate("short-writes", items.len() as u64, 512, opts(), |lo, hi| {
        let _s = plan_server(false, 30_000);
        for it in lo..hi {
            at_item(it);
            let (p, kind, x, y) = items[it as usize];
            let (f, h) = plans[p].clone();
            let filter = !f.is_empty();
            let kept = it % 2 == 1;
            let ctx = format!("plan {:?}, {}", plans[p], match kind {
                0 => format!("at most {} bytes per write", x),
                1 => format!("writes stop at offsets {} {}", x, y),
                2 => format!("a write is interrupted at offset {}", x),
                _ => format!("socket buffer of {} bytes", x),
            });
            let m = match do_plan(f, h, VERS[0], kept, "", &|c| match kind {
                0 => c.p.inp().wcap = Some(x),
                1 => c.p.inp().wcuts = vec![x, y],
                2 => c.p.inp().weintr = vec![x],
                _ => c.p.inp().window = x,
            }) {
                Ok(r) => model(filter, VERS[0]).check(&r, kept, false),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("short-writes", format!("{}: {}", ctx, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // two connections answered at the same time, every schedule
    for ka in [false, true] {
        let o = Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_REDUCED, steps: 400_000, secs: if r.thorough { 200 } else { 40 }, ..Opts::default() };
        r.explore(&format!("schedules-{}", if ka { "keep-alive" } else { "close" }), o, move || {
            let _s = no_sched(|| {
                on_call(|c, _| {
                    let n = c.req_param("n").unwrap_or_default();
                    c.resp_add_header("X-N".into(), n.clone());
                    c.resp_add_cookie(Cookie::new("n".into(), n.clone()));
                    c.resp_body(n.repeat(3).into_bytes());
                    c.response();
                });
                let mut s = new_server(2);
                s.router("").get("/h", HS[0]);
                start(&s);
                settle(5);
                s
            });
            let mut cs: Vec<Cl> = (0..2).map(|i| {
                let c = Cl::from(0x0A000001 + i, 1000);
                c.p.inp().wcap = Some(50);
                c.send(&req("GET", &format!("/h?n=v{}", i), if ka { &[("Connection", "keep-alive")] } else { &[] }, b""));
                c
            }).collect();
            for (i, c) in cs.iter_mut().enumerate() {
                let v = format!("v{}", i);
                match c.next(3000) {
                    Ok(r) if r.all("X-N") == [v.as_str()] && r.all("Set-Cookie") == [format!("n={}", v)] && r.body == v.repeat(3).as_bytes() => {}
                    x => return fail("response", format!("client {}: {:?}", i, x)),
                }
            }
            no_sched(|| {
                no_panics()?;
                Ok(0)
            })
        });
    }
    combos(r, false);
}

/// May this stand in a header or cookie name?
pub fn token(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
/// Lengths around the sizes buffers usually have.
pub fn body_sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([1000, 1500, 3000, 6000, 10_000, 100_000, 262_143, 262_144, 262_145, 300_001]).collect();
    if thorough {
        v.extend((1..64).map(|k| k * 1024 + k % 3));
        v.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 22]);
    }
    v
}

type Lines = Vec<(String, String)>;
/// headers, cookies, body of the next response
static LIST: Cell<(Lines, Lines, Vec<u8>)> = Cell::new((vec![], vec![], vec![]));

fn list_server() -> HttpServer {
    on_call(|c, t| {
        let (h, k, b) = LIST.get().clone();
        if let Tag::F(_) = t {
            return;
        }
        for (i, (n, v)) in h.iter().enumerate() {
            if i % 2 == 0 {
                c.resp_add_header(n.clone(), v.clone());
            } else {
                c.resp_add_header_str(n, v);
            }
        }
        for (n, v) in &k {
            c.resp_add_cookie(Cookie::new(n.clone(), v.clone()));
        }
        if b.len() % 2 == 0 {
            c.resp_body(b);
        } else {
            c.resp_body_slice(leak(b));
        }
        c.response();
    });
    let mut s = new_server(2);
    s.set_keepalive(60_000);
    s.router("").get("/h", HS[0]);
    start(&s);
    s
}

/// mode: kept open or not, short writes or not
fn list_check(h: &Lines2, k: &Lines2, b: Vec<u8>, mode: u64) -> Result<(), Verdict> {
    let ctx = |e: String| -> String {
        let f = |l: &Lines2| l.iter().take(3).map(|x| format!("{}: {}", x.0.chars().take(60).collect::<String>(), x.1.chars().take(60).collect::<String>())).collect::<Vec<_>>();
        format!("{} headers {:?}, {} cookies {:?}, body of {} bytes, mode {}: {}", h.len(), f(h), k.len(), f(k), b.len(), mode, e.chars().take(600).collect::<String>())
    };
    *LIST.get() = (h.to_vec(), k.to_vec(), b.clone());
    let kept = mode % 2 == 1;
    let mut c = Cl::new();
    if mode / 2 == 1 {
        c.p.inp().wcap = Some(1000);
    }
    for round in 0..if kept { 2 } else { 1 } {
        c.send(&req("GET", "/h", if kept { &[("Connection", "keep-alive")] } else { &[] }, b""));
        let r = match c.next(20_000) {
            Ok(r) => r,
            Err(e) => return fail("response", ctx(format!("{} {:?}", e, panics()))),
        };
        let mut want: Vec<(String, String)> = h.to_vec();
        want.extend(k.iter().map(|(n, v)| ("Set-Cookie".to_string(), format!("{}={}", n, v))));
        let mut got: Vec<(String, String)> = r.headers.iter().filter(|x| !["content-length", "content-type", "connection"].contains(&x.0.to_lowercase().as_str())).cloned().collect();
        // values of one name in order
        want.sort_by(|a, b| a.0.cmp(&b.0));
        got.sort_by(|a, b| a.0.cmp(&b.0));
        if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return fail("headers", ctx(format!("response {}: {} header lines, expected {}; first difference {:?}, expected {:?}", round, got.len(), want.len(), got.get(i), want.get(i))));
        }
        if r.status != 200 || r.body != b || r.all("Content-Length") != [b.len().to_string()] {
            return fail("body", ctx(format!("response {}: status {}, {} bytes, Content-Length {:?}", round, r.status, r.body.len(), r.all("Content-Length"))));
        }
        if !c.buf.is_empty() {
            return fail("extra", ctx(format!("response {}: {} more bytes", round, c.buf.len())));
        }
    }
    if kept {
        c.p.shutdown_write();
    }
    if let Err(e) = c.closed(100_000) {
        return fail("not-closed", ctx(e));
    }
    c.p.close();
    Ok(())
}
type Lines2 = [(String, String)];

// ------------------------------------------------------------------ P16
fn decode(coding: &str, b: &[u8]) -> Option<Vec<u8>> {
    use crate::inflate::*;
    let whole = |x: Option<(Vec<u8>, usize)>| x.filter(|x| x.1 == b.len()).map(|x| x.0);
    match coding {
        "gzip" => whole(gzip(b)),
        // raw deflate data are what many senders mean by it
        "deflate" => whole(zlib(b)).or_else(|| whole(inflate(b))),
        "zlib" => whole(zlib(b)),
        _ => None,
    }
}

/// Which coding may be used for this list: (all acceptable ones, the one preferred)
fn codings(list: &str) -> (Vec<String>, Option<&'static str>) {
    let toks: Vec<String> = list.split(',').map(|t| t.trim().to_string()).collect();
    let pref = ["gzip", "deflate", "zlib"].into_iter().find(|c| toks.iter().any(|t| t == c));
    let ok = toks.iter().filter_map(|t| {
        let (c, q) = t.split_once(';').unwrap_or((t, ""));
        let q = q.trim().strip_prefix("q=").map_or(1.0, |x| x.parse::<f64>().unwrap_or(0.0));
        if q > 0.0 { Some(c.trim().to_lowercase()) } else { None }
    }).collect();
    (ok, pref)
}

fn check16(r: &Resp, m: &Model, compress: bool, list: Option<&str>, kept: bool) -> Result<(), String> {
    let enc = r.all("Content-Encoding");
    if enc.len() > 1 {
        return Err(format!("Content-Encoding {:?}", enc));
    }
    if let Some(e) = enc.first() {
        if !compress {
            return Err(format!("compression is off, labelled {:?}", e));
        }
        let (ok, pref) = codings(list.unwrap_or(""));
        if list.is_none() || !ok.iter().any(|c| c == e) {
            return Err(format!("coded as {:?}, which the client did not list", e));
        }
        if let Some(p) = pref {
            if p != *e {
                return Err(format!("coded as {:?} where {:?} is preferred", e, p));
            }
        }
        match decode(e, &r.body) {
            Some(b) if b == m.body => {}
            x => return Err(format!("the {} body {:?} decodes to {:?}, the handler wrote {:?}", e, show(&r.body), x.map(|b| show(&b)), show(&m.body))),
        }
    }
    m.check(r, kept, !enc.is_empty())
}

/// Every combination of what the request carries and of what the handler does with the response.
fn combos(r: &mut Run, compress: bool) {
    const MS: [usize; 10] = [0, 1, 2, 3, 4, 6, 8, 9, 10, 11];
    let names = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
    let lists: [Option<&str>; 4] = [None, Some("gzip"), Some("deflate"), Some("br, zlib")];
    let (rq, rs) = (10 * 2 * 2 * 4 * 2 * 2u64, 3 * 3 * 2 * 4 * 2u64);
    r.enumerate(if compress { "combinations-compressed" } else { "combinations" }, rq * rs, 2048, opts(), |lo, hi| {
        on_call(|c, t| {
            let (f, h) = PLAN.get().clone();
            match t {
                Tag::F(_) => f.iter().for_each(|o| apply(c, *o)),
                Tag::H(_) => {
                    h.iter().for_each(|o| apply(c, *o));
                    c.response();
                }
            }
        });
        let mut s = new_server(1);
        if compress {
            s.set_compress();
        }
        let g = s.router("");
        for m in MS {
            super::routes::add!(g, m, "/h", HS[m], None);
            super::routes::add!(g, m, "/f", HS[m], Some(Extend::e1(vec![FS[0]])));
        }
        start(&s);
        for it in lo..hi {
            at_item(it);
            let mut k = it;
            let mut d = |n: u64| {
                let x = k % n;
                k /= n;
                x as usize
            };
            let (m, v, kept, list, creds, filter) = (MS[d(10)], VERS[d(2)], d(2) == 1, lists[d(4)], d(2) == 1, d(2) == 1);
            let (st, ck, hd, bd, ver) = (d(3), d(3), d(2), d(4), d(2));
            let mut f = vec![];
            let mut h = vec![];
            // the filter does what comes first
            let first: &mut Vec<Op> = if filter { &mut f } else { &mut h };
            if hd == 1 {
                first.push(Add("X-A", "1"));
            }
            if ck > 0 {
                first.push(Ck(0));
            }
            if st == 1 {
                first.push(St(404));
            }
            if ck == 2 {
                h.push(Ck(1));
            }
            if hd == 1 {
                h.push(AddS("X-A", "2"));
            }
            if st == 2 {
                h.push(St(201));
            }
            match bd {
                0 => {}
                1 => h.push(B(1)),
                2 => h.push(BT(3, 1)),
                _ => h.push(BsT(4, 2)),
            }
            if ver == 1 {
                h.push(V10);
            }
            let form = [2, 3, 8].contains(&m);
            let text = format!("{} /{}{} {}\r\nHost: h\r\n{}{}{}{}\r\n{}", names[m], if filter { "f" } else { "h" }, if creds { "?a=1" } else { "" }, v,
                if kept { "Connection: keep-alive\r\n" } else { "" },
                list.map_or(String::new(), |l| format!("Accept-Encoding: {}\r\n", l)),
                if creds { "Cookie: c=9; e=8\r\nAuthorization: Basic dTpw\r\nX-A: mine\r\n" } else { "" },
                if form { "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 7\r\n" } else { "" },
                if form { "a=1&b=2" } else { "" });
            let ctx = format!("compression {}, request {:?}, filter {:?} handler {:?}", compress, text, f, h);
            *PLAN.get() = (f, h);
            let mut c = Cl::new();
            c.send(text.as_bytes());
            let one = |c: &mut Cl| -> Result<(), String> {
                let r = c.next(5000)?;
                if kept {
                    if !c.buf.is_empty() {
                        return Err(format!("extra bytes {:?}", show(&c.buf)));
                    }
                    c.p.shutdown_write();
                }
                c.closed(40_000)?;
                check16(&r, &model(true, v), compress, list, kept)
            };
            if let Err(e) = one(&mut c) {
                return fail("combination", format!("{}: {}", ctx, e));
            }
            c.p.close();
        }
        no_panics()?;
        Ok(0)
    });
}

pub fn p16(r: &mut Run) {
    r.assume("the coding named deflate is accepted both as raw deflate and in the zlib format");
    let toks = ["gzip", "deflate", "zlib", "br", "identity", "GZIP", "*", "gzip;q=0", "x-gzip", ""];
    let n = nstr(toks.len(), if r.thorough { 5 } else { 4 });
    let seps = [",", ", ", " ,"];
    // token lists x a few responses
    for (compress, name) in [(true, "on"), (false, "off")] {
        r.enumerate(&format!("lists-{}", name), n * 3, 512, opts(), |lo, hi| {
            let _s = plan_server(compress, 30_000);
            for it in lo..hi {
                at_item(it);
                let ix = nth(toks.len(), it / 3);
                let list: Option<String> = if ix.is_empty() { None } else { Some(ix.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(seps[(it % 3) as usize])) };
                let extra = list.as_ref().map_or(String::new(), |l| format!("Accept-Encoding: {}\r\n", l));
                for (j, h) in [vec![B(8)], vec![BsT(4, 1), St(404)]].into_iter().enumerate() {
                    let kept = j == 0;
                    let m = match do_plan(vec![], h.clone(), VERS[0], kept, &extra, &|_| ()) {
                        Ok(r) => check16(&r, &model(false, VERS[0]), compress, list.as_deref(), kept),
                        Err(e) => Err(e),
                    };
                    if let Err(e) = m {
                        return fail("coding", format!("compression {}, Accept-Encoding {:?}, {:?}: {}", name, list, h, e));
                    }
                }
            }
            no_panics()?;
            Ok(0)
        });
    }
    // sequences of body writes (and others in between) x lists
    let nb = bodies().len() as u8;
    let mut ops: Vec<Op> = vec![];
    for b in 0..nb {
        ops.push(B(b));
        ops.push(Bs(b));
        ops.push(BT(b, 1));
        ops.push(BsT(b, 2));
    }
    let lists: [Option<&str>; 7] = [Some("gzip"), Some("deflate"), Some("zlib"), Some("zlib, deflate"), Some("br"), Some("deflate, gzip"), None];
    let k = ops.len() as u64;
    r.enumerate("writes", (k * k + k) * 7 * 2, 256, opts(), |lo, hi| {
        for compress in [true, false] {
            if (lo % 2 == 0) != compress && hi - lo == 1 {
                continue;
            }
            let s = plan_server_on(compress, if compress { 8081 } else { 8082 });
            std::mem::forget(s);
        }
        for it in lo..hi {
            at_item(it);
            let compress = it % 2 == 0;
            set_port(if compress { 8081 } else { 8082 });
            let list = lists[(it / 2 % 7) as usize];
            let x = it / 14;
            let seq = if x < k { vec![ops[x as usize]] } else { vec![ops[((x - k) % k) as usize], ops[((x - k) / k) as usize]] };
            let extra = list.map_or(String::new(), |l| format!("accept-encoding: {}\r\n", l));
            let cut = (x % 2) as usize;
            let (f, h) = if seq.len() == 2 && cut == 1 { (seq[..1].to_vec(), seq[1..].to_vec()) } else { (vec![], seq.clone()) };
            let fl = !f.is_empty();
            let kept = x % 3 == 0;
            let m = match do_plan(f, h, VERS[0], kept, &extra, &|c| if x % 5 == 0 { c.p.inp().wcap = Some(77) }) {
                Ok(r) => check16(&r, &model(fl, VERS[0]), compress, list, kept),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("coding", format!("compression {}, Accept-Encoding {:?}, {:?}: {}", compress, list, seq, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // three operations from a smaller set with labels and types mixed in
    let small = [B(8), Bs(4), BT(0, 1), BsT(8, 2), Ct(3), SetS("X-C", "x"), St(404), B(6), Bs(7), Send];
    let n3 = nstr(small.len(), if r.thorough { 6 } else { 5 });
    r.enumerate("sequences", n3 * 3, 512, opts(), |lo, hi| {
        let _s = plan_server(true, 30_000);
        for it in lo..hi {
            at_item(it);
            let list = ["gzip", "deflate", "zlib"][(it % 3) as usize];
            let seq: Vec<Op> = nth(small.len(), it / 3).iter().map(|i| small[*i]).collect();
            let extra = format!("Accept-Encoding: {}\r\n", list);
            let m = match do_plan(vec![], seq.clone(), VERS[0], false, &extra, &|_| ()) {
                Ok(r) => check16(&r, &model(false, VERS[0]), true, Some(list), false),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("coding", format!("Accept-Encoding {:?}, {:?}: {}", list, seq, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // several requests on one connection with different lists
    let seql: [Option<&str>; 4] = [Some("gzip"), Some("deflate"), None, Some("br")];
    r.enumerate("on-one-connection", 64 * 2 * 3, 64, opts(), |lo, hi| {
        let _s = plan_server(true, 30_000);
        for it in lo..hi {
            at_item(it);
            *PLAN.get() = (vec![], vec![[B(8), Bs(4)][(it / 64 % 2) as usize]]);
            let mut c = Cl::new();
            let mut x = it % 64;
            let pipelined = it / 128 == 1;
            let mut ls = vec![];
            for _ in 0..3 {
                ls.push(seql[(x % 4) as usize]);
                x /= 4;
            }
            let reqs: Vec<Vec<u8>> = ls.iter().map(|l| format!("GET /h HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n{}\r\n", l.map_or(String::new(), |l| format!("Accept-Encoding: {}\r\n", l))).into_bytes()).collect();
            if pipelined {
                c.send(&reqs.concat());
            }
            for j in 0..3 {
                if !pipelined {
                    c.send(&reqs[j]);
                }
                let m = match c.next(5000) {
                    Ok(r) => check16(&r, &model(false, VERS[0]), true, ls[j], true),
                    Err(e) => Err(e),
                };
                if let Err(e) = m {
                    return fail("coding", format!("requests with {:?} on one connection, number {}: {}", ls, j, e));
                }
            }
            c.p.close();
        }
        no_panics()?;
        Ok(0)
    });
    // body lengths around every buffer size
    let step = if r.thorough { 1 } else { 3 };
    r.enumerate("lengths", 9000 / step * 2, 64, opts(), |lo, hi| {
        static N: Cell<(usize, bool)> = Cell::new((0, false));
        let body = |n: usize, rnd: bool| if rnd { big(n, 5) } else { (0..n).map(|i| (i / 50) as u8).collect() };
        on_call(move |c, _| {
            let (n, rnd) = *N.get();
            c.resp_body(body(n, rnd));
            c.response();
        });
        let mut s = new_server(1);
        s.set_compress();
        s.router("").get("/h", HS[0]);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let n = (it / 2 * step) as usize;
            *N.get() = (n, it % 2 == 0);
            let want = body(n, it % 2 == 0);
            let list = ["gzip", "deflate", "zlib"][n % 3];
            let mut m = Model::new("HTTP/1.1");
            m.body = want;
            let x = match once(&req("GET", "/h", &[("Accept-Encoding", list)], b"")) {
                Ok(r) => check16(&r, &m, true, Some(list), false),
                Err(e) => Err(e),
            };
            if let Err(e) = x {
                return fail("coding", format!("body of {} bytes, {}: {}", n, list, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // long lists of codings; large bodies
    let cs = counts(r.thorough);
    r.enumerate("long-lists", cs.len() as u64 * 3 * 4, 64, opts(), |lo, hi| {
        let _s = plan_server(true, 30_000);
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 12];
            let coding = ["gzip", "deflate", "zlib"][it as usize % 3];
            let mut toks: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
            match it / 3 % 4 {
                0 => toks.push(coding.into()),
                1 => toks.insert(0, coding.into()),
                2 => toks.insert(n / 2, coding.into()),
                _ => toks.iter_mut().for_each(|t| t.push_str(coding)),
            }
            let list = toks.join(if n % 2 == 0 { ", " } else { "," });
            let m = match do_plan(vec![], vec![B(8)], VERS[0], it % 2 == 0, &format!("Accept-Encoding: {}\r\n", list), &|_| ()) {
                Ok(r) => check16(&r, &model(false, VERS[0]), true, Some(&list), it % 2 == 0),
                Err(e) => Err(e),
            };
            if let Err(e) = m {
                return fail("coding", format!("Accept-Encoding with {} unknown codings, pattern {}, {}: {}", n, it / 3 % 4, coding, e));
            }
        }
        no_panics()?;
        Ok(0)
    });
    let sizes = body_sizes(r.thorough);
    r.enumerate("body-sizes", sizes.len() as u64 * 3 * 3, 6, opts(), |lo, hi| {
        static BODY: Cell<Vec<u8>> = Cell::new(vec![]);
        on_call(|c, _| {
            c.resp_body(BODY.get().clone());
            c.response();
        });
        let mut s = new_server(1);
        s.set_compress();
        s.router("").get("/h", HS[0]);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let n = sizes[it as usize / 9];
            let b = match it / 3 % 3 {
                0 => vec![b'a'; n],
                1 => big(n, 11),
                _ => (0..n).map(|i| (i / 700) as u8).collect(),
            };
            let list = ["gzip", "deflate", "zlib"][it as usize % 3];
            *BODY.get() = b.clone();
            let mut m = Model::new("HTTP/1.1");
            m.body = b;
            let x = match once(&req("GET", "/h", &[("Accept-Encoding", list)], b"")) {
                Ok(r) => check16(&r, &m, true, Some(list), false),
                Err(e) => Err(e),
            };
            if let Err(e) = x {
                return fail("coding", format!("body of {} bytes, kind {}, {}: {}", n, it / 3 % 3, list, e.chars().take(400).collect::<String>()));
            }
        }
        no_panics()?;
        Ok(0)
    });
    combos(r, true);
}

fn plan_server_on(compress: bool, port: u16) -> HttpServer {
    on_call(|c, t| {
        let (f, h) = PLAN.get().clone();
        match t {
            Tag::F(_) => f.iter().for_each(|o| apply(c, *o)),
            Tag::H(_) => {
                h.iter().for_each(|o| apply(c, *o));
                c.response();
            }
        }
    });
    let mut s = new_server(1);
    if compress {
        s.set_compress();
    }
    let g = s.router("");
    g.get_wf("/f", HS[0], Extend::e1(vec![FS[0]]));
    g.get("/h", HS[0]);
    start_on(&s, port);
    s
}

// ------------------------------------------------------------------ P21
#[derive(Clone, Debug, Default, PartialEq)]
struct Ck0 {
    name: &'static str,
    value: &'static str,
    path: Option<&'static str>,
    domain: Option<&'static str>,
    expires: Option<i64>,
    max_age: Option<isize>,
    secure: bool,
    httponly: bool,
    same: u8,
}

impl Ck0 {
    fn build(&self, via: bool) -> Cookie {
        if via && self.same == 0 {
            return Cookie::create(self.name.into(), self.value.into(), self.path.map(|s| s.into()), self.domain.map(|s| s.into()),
                self.expires.map(Time::from_secs), self.max_age, self.secure, self.httponly);
        }
        let mut b = CookieBuilder::new();
        b.name_value(self.name.into(), self.value.into());
        if let Some(p) = self.path {
            b.path(p.into());
        }
        if let Some(p) = self.domain {
            b.domain(p.into());
        }
        if let Some(p) = self.expires {
            b.expires(Time::from_secs(p));
        }
        if let Some(p) = self.max_age {
            b.max_age(p);
        }
        if self.secure {
            b.secure(true);
        }
        if self.httponly {
            b.httponly(true);
        }
        match self.same {
            1 => { b.same_site(SameSite::None); }
            2 => { b.same_site(SameSite::Lax); }
            3 => { b.same_site(SameSite::Strict); }
            _ => {}
        }
        b.build()
    }
    /// the header value: name=value and the set of attributes
    fn attrs(&self) -> (String, Vec<String>) {
        let mut a = vec![];
        if let Some(p) = self.path {
            a.push(format!("path={}", p));
        }
        if let Some(p) = self.domain {
            a.push(format!("domain={}", p));
        }
        if let Some(p) = self.expires {
            a.push(format!("expires={}", http_date(p)));
        }
        if let Some(p) = self.max_age {
            a.push(format!("max-age={}", p));
        }
        if self.secure {
            a.push("secure".into());
        }
        if self.httponly {
            a.push("httponly".into());
        }
        if self.same > 0 {
            a.push(format!("samesite={}", ["", "None", "Lax", "Strict"][self.same as usize]));
        }
        a.sort();
        (format!("{}={}", self.name, self.value), a)
    }
}

fn attrs_of(h: &str) -> (String, Vec<String>) {
    let mut it = h.split(';');
    let nv = it.next().unwrap_or("").trim().to_string();
    let mut a: Vec<String> = it.map(|x| {
        let x = x.trim();
        match x.split_once('=') {
            Some((k, v)) => format!("{}={}", k.to_lowercase(), v),
            None => x.to_lowercase(),
        }
    }).collect();
    a.sort();
    (nv, a)
}

fn ck_all(full: bool) -> Vec<Ck0> {
    let nvs = [("n", "v"), ("__Host-x", ""), ("a.b", "x=y=="), ("N", "\"q\"")];
    let paths = [None, Some("/"), Some("/a/b=c"), Some("")];
    let doms = [None, Some("example.com"), Some(".x.y")];
    let exps = [None, Some(0i64), Some(951_782_400), Some(1_639_000_000), Some(4_102_444_799), Some(-1)];
    let mas = [None, Some(0isize), Some(-1), Some(86_400), Some(isize::MAX), Some(isize::MIN)];
    let mut v = vec![];
    for (name, value) in nvs {
        for path in paths {
            for domain in doms {
                for expires in exps {
                    for max_age in mas {
                        for f in 0..16u8 {
                            if !full && (path == Some("") || domain == Some(".x.y") || expires == Some(-1) || max_age == Some(isize::MIN) || name == "N") && f > 1 {
                                continue;
                            }
                            v.push(Ck0 { name, value, path, domain, expires, max_age, secure: f & 1 > 0, httponly: f & 2 > 0, same: f / 4 });
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn p21(r: &mut Run) {
    r.assume("names are tokens, values and attribute values contain no ';', control characters or surrounding spaces (they cannot be written in a Set-Cookie header)");
    let all = ck_all(true);
    // every cookie, through the response itself
    r.enumerate("single", all.len() as u64 * 2, 2048, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let c0 = &all[(it / 2) as usize];
            let c = c0.build(it % 2 == 1);
            let mut resp = Response::custom(Status::OK);
            resp.add_set_cookie(c.clone());
            match resp.read_set_cookies() {
                Ok(v) if v == vec![c.clone()] => {}
                x => return fail("read-back", format!("{:?}: {:?}", c0, x)),
            }
            let h = c.to_string();
            if attrs_of(&h) != c0.attrs() {
                return fail("header", format!("{:?}: header {:?}", c0, h));
            }
        }
        Ok(0)
    });
    // every value over a small alphabet, and every second of some days / every day of two centuries as expiry
    let alpha = ["a", "=", " b", "\"", ",", "%3B", "é", "-"];
    let n = nstr(alpha.len(), if r.thorough { 7 } else { 6 });
    r.enumerate("values", n, 4096, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let v = cat(&alpha, &nth(alpha.len(), it)).trim().to_string();
            let c = CookieBuilder::new().name_value("n".into(), v.clone()).path(format!("/{}", v)).domain(format!("d{}", v)).httponly(true).build();
            let mut resp = Response::custom(Status::OK);
            resp.add_set_cookie(c.clone());
            match resp.read_set_cookies() {
                Ok(x) if x == vec![c.clone()] => {}
                x => return fail("read-back", format!("value {:?}: {:?}", v, x)),
            }
        }
        Ok(0)
    });
    // every pair of characters in each part
    r.enumerate("characters", n_pairs(5), 2048, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (a, b, t) = char_pair(it, 5);
            if a == ";" || b == ";" || (t < 2 && !(token(&a) && token(&b))) {
                continue;
            }
            let mut k = CookieBuilder::new();
            let (name, value) = match t {
                0 => (format!("{}{}", a, b), "v".to_string()),
                1 => (format!("n{}x{}", a, b), "v=w".to_string()),
                2 => ("n".to_string(), format!("{}{}", a, b)),
                _ => ("n".to_string(), format!("v{} {}w", b, a)),
            };
            k.name_value(name.clone(), value.clone());
            let mut want = vec![];
            if t >= 3 {
                let p = if t == 3 { format!("/{}{}", a, b) } else { format!("/x {}/{}", a, b) };
                let d = if t == 3 { format!("{}{}.com", a, b) } else { format!("x{}.y{}", a, b) };
                want = vec![format!("domain={}", d), "httponly".into(), format!("path={}", p), "samesite=Lax".into()];
                k.path(p).domain(d).httponly(true).same_site(SameSite::Lax);
            }
            let c = k.build();
            if attrs_of(&c.to_string()) != (format!("{}={}", name, value), want) {
                return fail("header", format!("{:?}: header {:?}", c, c.to_string()));
            }
            let mut resp = Response::custom(Status::OK);
            resp.add_set_cookie(Cookie::new("first".into(), "1".into()));
            resp.add_set_cookie(c.clone());
            match resp.read_set_cookies() {
                Ok(v) if v.len() == 2 && v[1] == c => {}
                x => return fail("read-back", format!("{:?}: {:?}", c, x)),
            }
        }
        Ok(0)
    });
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 4, 64, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 4];
            let mut resp = Response::custom(Status::OK);
            let one = |i: usize| match it % 4 {
                0 => Cookie::new(format!("c{}", i), format!("v{}", n - i)),
                1 => CookieBuilder::new().name_value("same".into(), format!("{}", i)).max_age(i as isize - 5).path(format!("/{}", i)).build(),
                2 => CookieBuilder::new().name_value(format!("c{}", i % 3), "x".repeat(i * 7)).expires(Time::from_secs(i as i64 * 1_000_003)).secure(i % 2 == 0).build(),
                _ => CookieBuilder::new().name_value(format!("c{}", "n".repeat(n)), "x".repeat(n * 3)).path(format!("/{}", "p".repeat(n * 5))).domain(format!("d{}.y", "d".repeat(n))).max_age(isize::MAX - i as isize).build(),
            };
            let want: Vec<Cookie> = (0..if it % 4 == 3 { 2 } else { n }).map(one).collect();
            for c in &want {
                resp.add_set_cookie(c.clone());
            }
            match resp.read_set_cookies() {
                Ok(v) if v == want => {}
                x => return fail("read-back", format!("{} cookies, kind {}: {:?} cookies read back, or other ones", want.len(), it % 4, x.map(|v| v.len()).map_err(|e| e.to_string()))),
            }
        }
        Ok(0)
    });
    let step = if r.thorough { 1 } else { 3 };
    r.enumerate("expiry", 73_049 / step + 86_400 / step, 8192, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let secs = if it < 73_049 / step { (it * step) as i64 * 86_400 - 25_567 * 86_400 + (it as i64 * 7919) % 86_400 } else { 1_709_164_800 + ((it - 73_049 / step) * step) as i64 };
            let c = CookieBuilder::new().name_value("n".into(), "v".into()).expires(Time::from_secs(secs)).build();
            let h = c.to_string();
            if h != format!("n=v; Expires={}", http_date(secs)) {
                return fail("expiry", format!("{} s: {:?}, expected {:?} ({:?})", secs, h, http_date(secs), civil(secs.div_euclid(86_400))));
            }
            let mut resp = Response::custom(Status::OK);
            resp.add_set_cookie(c.clone());
            match resp.read_set_cookies() {
                Ok(x) if x == vec![c.clone()] => {}
                x => return fail("read-back", format!("expires {}: {:?}", secs, x)),
            }
        }
        Ok(0)
    });
    // lists of up to three cookies, over the wire of a real server, read back by name=value and by the response itself
    let few: Vec<Ck0> = {
        let mut v: Vec<Ck0> = vec![];
        let a = ck_all(false);
        let step = a.len() / if r.thorough { 40 } else { 22 };
        for i in (0..a.len()).step_by(step.max(1)) {
            v.push(a[i].clone());
        }
        v
    };
    let k = few.len();
    r.enumerate("lists", nstr(k, 3), 512, opts(), |lo, hi| {
        static CKS: Cell<Vec<Cookie>> = Cell::new(vec![]);
        static BACK: Cell<String> = Cell::new(String::new());
        on_call(|c, _| {
            for x in CKS.get().iter() {
                c.resp_add_cookie(x.clone());
            }
            *BACK.get() = match c.get_response().read_set_cookies() {
                Ok(v) if v == *CKS.get() => "same".into(),
                x => format!("{:?}", x),
            };
            c.resp_body_slice(b"x");
            c.response();
        });
        let mut s = new_server(1);
        s.router("").get("/h", HS[0]);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let cs: Vec<&Ck0> = nth(k, it).iter().map(|i| &few[*i]).collect();
            *CKS.get() = cs.iter().map(|c| c.build(it % 2 == 0)).collect();
            let r = match once(&get("/h")) {
                Ok(r) => r,
                Err(e) => return fail("response", format!("{:?}: {}", cs, e)),
            };
            let got: Vec<(String, Vec<String>)> = r.all("Set-Cookie").iter().map(|h| attrs_of(h)).collect();
            let want: Vec<(String, Vec<String>)> = cs.iter().map(|c| c.attrs()).collect();
            if got != want {
                return fail("header", format!("{:?}: Set-Cookie {:?}", cs, r.all("Set-Cookie")));
            }
            if BACK.get() != "same" {
                return fail("read-back", format!("{:?}: {}", cs, BACK.get()));
            }
        }
        no_panics()?;
        Ok(0)
    });
    let _ = String::new().write_str("");
}

/// name=value of the cookie `Op::Ck(i)` sets
pub fn ck_text(i: u8) -> String {
    ck(i).1.split("; ").next().unwrap().to_string()
}

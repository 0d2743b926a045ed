//! P09-P12: what the server does with the bytes of a connection.
use super::req::*;
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::{Context, HttpServer};
use std::fmt::Write as _;

// ------------------------------------------------------------------ requests and what a handler must see of them
#[derive(Clone, Default)]
pub struct Spec {
    pub name: &'static str,
    pub method: &'static str,
    pub path: &'static str,
    pub query: &'static str,
    pub version: &'static str,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub length: bool, // send Content-Length
    pub params: Vec<(&'static str, &'static str)>,
    pub form: Vec<(&'static str, String)>,
    pub files: Vec<(&'static str, &'static str, Vec<u8>)>,
    pub cookies: Vec<(&'static str, &'static str)>,
    pub user: Option<(&'static str, &'static str)>,
    pub conn: Option<&'static str>,
}

const METHODS: [&str; 7] = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "TRACE"];
const KEYS: [&str; 9] = ["a", "b", "c", "k", "f", "g", "up", "Host", "zz"];

impl Spec {
    pub fn head_lines(&self) -> Vec<(String, String)> {
        let mut h = vec![("Host".to_string(), "h".to_string())];
        h.extend(self.headers.iter().cloned());
        if let Some(c) = self.conn {
            h.push(("Connection".into(), c.into()));
        }
        if self.length {
            h.push(("Content-Length".into(), self.body.len().to_string()));
        }
        h
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{} {}", self.method, self.path).into_bytes();
        if !self.query.is_empty() {
            v.extend(format!("?{}", self.query).bytes());
        }
        v.extend(format!(" HTTP/{}\r\n", self.version).bytes());
        for (k, x) in self.head_lines() {
            v.extend(format!("{}: {}\r\n", k, x).bytes());
        }
        v.extend(b"\r\n");
        v.extend(&self.body);
        v
    }
    pub fn head_len(&self) -> usize {
        self.bytes().len() - self.body.len()
    }
    pub fn expect(&self) -> String {
        let mut hs: Vec<String> = self.head_lines().iter().map(|(k, v)| format!("{}={:?}", k, [v])).collect();
        hs.sort();
        let mut s = String::new();
        let m = METHODS.iter().position(|m| *m == self.method).unwrap();
        let _ = write!(s, "{:?} {} headers {:?}", Tag::H(m), self.path, hs);
        let _ = write!(s, " params {}", self.params.len());
        for k in KEYS {
            if let Some((_, v)) = self.params.iter().find(|x| x.0 == k) {
                let _ = write!(s, " {}={:?}", k, v);
            }
        }
        let _ = write!(s, " form {}", self.form.len());
        for k in KEYS {
            if let Some((_, v)) = self.form.iter().find(|x| x.0 == k) {
                let _ = write!(s, " {}={:?}", k, v);
            }
        }
        let _ = write!(s, " files");
        for k in KEYS {
            if let Some((_, f, c)) = self.files.iter().find(|x| x.0 == k) {
                let _ = write!(s, " {}={:?}/{}/{:?}", k, f, c.len(), show(c));
            }
        }
        let _ = write!(s, " cookies");
        for (k, v) in &self.cookies {
            let _ = write!(s, " {}={}", k, v);
        }
        let _ = write!(s, " user {:?}", self.user.map(|(a, b)| (a.to_string(), b.to_string())));
        s
    }
}

pub fn observe(c: &mut Context, tag: Tag) -> String {
    let mut s = String::new();
    let mut hs: Vec<String> = c.req_header().map().iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
    hs.sort();
    let _ = write!(s, "{:?} {} headers {:?}", tag, c.req_path(), hs);
    let _ = write!(s, " params {}", c.req_count_param());
    for k in KEYS {
        if let Some(v) = c.req_param(k) {
            let _ = write!(s, " {}={:?}", k, v);
        }
    }
    match c.req_count_form() {
        Ok(n) => {
            let _ = write!(s, " form {}", n);
        }
        Err(_) => s.push_str(" form unreadable"),
    }
    for k in KEYS {
        if let Ok(Some(v)) = c.req_form(k) {
            let _ = write!(s, " {}={:?}", k, v);
        }
    }
    let _ = write!(s, " files");
    for k in KEYS {
        if let Ok(Some(f)) = c.req_form_file(k) {
            let _ = write!(s, " {}={:?}/{}/{:?}", k, f.filename(), f.size(), show(&f.content()));
        }
    }
    let _ = write!(s, " cookies");
    for k in c.req_cookies() {
        let (a, b) = cookie_nv(&k);
        let _ = write!(s, " {}={}", a, b);
    }
    let _ = write!(s, " user {:?}", c.req_userinfo().map(|u| (u.username(), u.password())));
    s
}

static OBS: Cell<Vec<String>> = Cell::new(vec![]);

/// Route /:x/:y for seven methods; the handler records what it sees and sends it back.
fn echo_server(pool: usize, keepalive: i64) -> HttpServer {
    on_call(|c, tag| {
        let o = observe(c, tag);
        OBS.get().push(o.clone());
        c.resp_add_header("N".into(), o.len().to_string());
        c.resp_body(o.into_bytes());
        c.response();
    });
    let mut s = new_server(pool);
    s.set_keepalive(keepalive);
    routes(&s);
    start(&s);
    s
}
fn routes(s: &HttpServer) {
    let g = s.router("");
    for p in ["/:x/:y", "/one"] {
        g.get(p, HS[0]);
        g.post(p, HS[1]);
        g.put(p, HS[2]);
        g.patch(p, HS[3]);
        g.delete(p, HS[4]);
        g.head(p, HS[5]);
        g.trace(p, HS[6]);
    }
}

fn hv(l: &[(&str, &str)]) -> Vec<(String, String)> {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn corpus() -> Vec<Spec> {
    let d = Spec { method: "GET", path: "/one", version: "1.1", ..Spec::default() };
    let form = "application/x-www-form-urlencoded";
    let parts = [
        Part { file: None, name: "a", content: b"v\r\n-w".to_vec() },
        Part { file: Some("t.bin"), name: "up", content: b"\r\n--X\r\n\0\xff\r".to_vec() },
        Part { file: None, name: "b", content: vec![] },
    ];
    vec![
        Spec { name: "get", ..d.clone() },
        Spec { name: "query", path: "/p/q", query: "a=1&b=x=y&c", params: vec![("a", "1"), ("b", "x=y"), ("c", "")], headers: hv(&[("X-A", "1: 2"), ("Accept", "*/*")]), ..d.clone() },
        Spec { name: "http10", version: "1.0", headers: hv(&[("A", "")]), ..d.clone() },
        Spec { name: "form", method: "POST", headers: hv(&[("Content-Type", form)]), body: b"k=v1&f=\r\nx&g".to_vec(), length: true, form: vec![("k", "v1".into()), ("f", "\r\nx".into()), ("g", "".into())], ..d.clone() },
        Spec {
            name: "multipart", method: "POST", headers: hv(&[("Content-Type", "multipart/form-data; boundary=XyZ")]), body: multipart(&parts, "XyZ", 0), length: true,
            form: vec![("a", "v\r\n-w".into()), ("b", "".into())], files: vec![("up", "t.bin", parts[1].content.clone())], ..d.clone()
        },
        Spec { name: "put-raw", method: "PUT", path: "/u/v", body: b"GET /x HTTP/1.1\r\n\r\n".to_vec(), length: true, ..d.clone() },
        Spec { name: "patch-form", method: "PATCH", query: "a=0", params: vec![("a", "0")], headers: hv(&[("Content-Type", form)]), body: b"a=1".to_vec(), length: true, form: vec![("a", "1".into())], ..d.clone() },
        Spec { name: "cookie-auth", headers: hv(&[("Cookie", "c1=v1; c2=v2"), ("Authorization", "Basic dTpwOnE=")]), cookies: vec![("c1", "v1"), ("c2", "v2")], user: Some(("u", "p:q")), ..d.clone() },
        Spec { name: "delete", method: "DELETE", path: "/d/1", headers: hv(&[("B", "x  y"), ("C", "z  w")]), ..d.clone() },
        Spec { name: "post-empty", method: "POST", headers: hv(&[("Content-Type", form)]), length: true, ..d.clone() },
        Spec { name: "post-none", method: "POST", headers: hv(&[("Content-Type", form)]), ..d.clone() },
        Spec { name: "trace", method: "TRACE", path: "/~/*", ..d.clone() },
    ]
}

/// Serve one request delivered in these segments; compare with what was sent.
fn deliver(sp: &Spec, want: &str, segs: &[&[u8]]) -> Result<(), Verdict> {
    OBS.get().clear();
    let lens: Vec<usize> = segs.iter().map(|s| s.len()).take(40).collect();
    let rs = match once_segs(segs) {
        Ok(r) => r,
        Err(e) => return fail("no-answer", format!("{} request {:?} in segments {:?}: {} {:?}", sp.name, show(&sp.bytes()), lens, e, panics())),
    };
    if OBS.get().len() != 1 {
        return fail("runs", format!("{} request {:?} in segments {:?}: handler ran {} times, status {}", sp.name, show(&sp.bytes()), lens, OBS.get().len(), rs.status));
    }
    if OBS.get()[0] != want {
        return fail("observed", format!("{} request {:?} in segments {:?}: handler sees {} expected {}", sp.name, show(&sp.bytes()), lens, OBS.get()[0], want));
    }
    if rs.status != 200 || rs.body != want.as_bytes() || rs.get("N") != Some(&want.len().to_string()) {
        return fail("response", format!("{} request in segments {:?}: response {:?}", sp.name, lens, rs));
    }
    Ok(())
}

fn cuts<'a>(b: &'a [u8], at: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    for &a in at {
        v.push(&b[p..a]);
        p = a;
    }
    v.push(&b[p..]);
    v
}

pub fn p09(r: &mut Run) {
    r.assume("12 request shapes (every method with and without body, query, headers, form, multipart, cookies, credentials); each read returns one segment, segments arrive in order; header names are distinct");
    let cs = corpus();
    // one cut, two cuts
    let mut two = vec![];
    for (i, c) in cs.iter().enumerate() {
        let n = c.bytes().len();
        for a in 0..n {
            two.push((i, a, a));
            for b in a + 1..n {
                two.push((i, a, b));
            }
        }
    }
    r.enumerate("two-cuts", two.len() as u64, 4096, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        let pre: Vec<(Vec<u8>, String)> = cs.iter().map(|c| (c.bytes(), c.expect())).collect();
        for it in lo..hi {
            at_item(it);
            let (i, a, b) = two[it as usize];
            deliver(&cs[i], &pre[i].1, &cuts(&pre[i].0, &[a, b]))?;
        }
        no_panics()?;
        Ok(0)
    });
    if r.thorough {
        // three cuts, on the shorter requests
        let mut n3 = vec![];
        let mut total = 0u64;
        for (i, c) in cs.iter().enumerate() {
            let n = c.bytes().len() as u64;
            if n <= 130 {
                n3.push((i, total));
                total += (n - 1) * (n - 2) * (n - 3) / 6;
            }
        }
        r.enumerate("three-cuts", total, 8192, opts(), |lo, hi| {
            let _s = echo_server(1, 1000);
            let pre: Vec<(Vec<u8>, String)> = cs.iter().map(|c| (c.bytes(), c.expect())).collect();
            for it in lo..hi {
                at_item(it);
                let &(i, base) = n3.iter().rev().find(|x| x.1 <= it).unwrap();
                // the k-th 3-subset of 1..n
                let mut k = it - base;
                let ch = |n: u64, r: u64| -> u64 { (0..r).map(|j| n.saturating_sub(j)).product::<u64>() / [1, 1, 2, 6][r as usize] };
                let mut at = [0usize; 3];
                for q in (1..=3u64).rev() {
                    let mut m = q - 1;
                    while ch(m + 1, q) <= k {
                        m += 1;
                    }
                    k -= ch(m, q);
                    at[q as usize - 1] = m as usize + 1;
                }
                deliver(&cs[i], &pre[i].1, &cuts(&pre[i].0, &at))?;
            }
            no_panics()?;
            Ok(0)
        });
    }
    // every subset of cuts within a window of w positions, the rest in whole pieces or byte by byte
    let w = if r.thorough { 12 } else { 9 };
    let step = if r.thorough { 3 } else { 4 };
    let mut win = vec![];
    for (i, c) in cs.iter().enumerate() {
        let n = c.bytes().len();
        let mut p = 1;
        while p < n {
            win.push((i, p));
            p += step;
        }
    }
    let per = 2u64 << w;
    r.enumerate("windows", win.len() as u64 * per, per * 8, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        let pre: Vec<(Vec<u8>, String)> = cs.iter().map(|c| (c.bytes(), c.expect())).collect();
        for it in lo..hi {
            at_item(it);
            let (i, p) = win[(it / per) as usize];
            let m = it % per;
            let n = pre[i].0.len();
            let at: Vec<usize> = (1..n)
                .filter(|&x| if x >= p && x < p + w { m >> 1 >> (x - p) & 1 == 1 } else { m & 1 == 1 })
                .collect();
            deliver(&cs[i], &pre[i].1, &cuts(&pre[i].0, &at))?;
        }
        no_panics()?;
        Ok(0)
    });
    // heads and bodies of every size around the multiples of the read buffer
    let sizes: Vec<usize> = if r.thorough { (1..4200).collect() } else { (1..300).chain(880..1200).chain(1900..2200).chain(2950..3150).collect() };
    let ways = 10u64;
    r.enumerate("head-size", sizes.len() as u64 * ways * 2, 128, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let pad = sizes[(it / ways / 2) as usize];
            let mut sp = cs[if it / ways % 2 == 0 { 1 } else { 3 }].clone();
            // the padding is one long header, or many short ones
            if pad % 2 == 0 {
                sp.headers.insert(0, ("Pad".into(), "p".repeat(pad)));
            } else {
                for j in 0..pad / 12 + 1 {
                    sp.headers.insert(j, (format!("H{}", j), "v".repeat(pad % 12)));
                }
            }
            let b = sp.bytes();
            let h = sp.head_len();
            let at: Vec<usize> = match it % ways {
                0 => vec![],
                1 => vec![h],
                2 => vec![h - 1],
                3 => vec![h - 3],
                4 => vec![h - 2],
                5 => (1..b.len()).collect(),
                6 => vec![1023],
                7 => vec![1025],
                8 => (1..b.len() / 512 + 1).map(|x| x * 512).collect(),
                _ => (1..b.len() / 7 + 1).map(|x| x * 7).collect(),
            };
            let at: Vec<usize> = at.into_iter().filter(|x| *x < b.len()).collect();
            deliver(&sp, &sp.expect(), &cuts(&b, &at))?;
        }
        no_panics()?;
        Ok(0)
    });
    let ways = 9u64;
    let bstep = if r.thorough { 1 } else { 3 };
    r.enumerate("body-size", (4200 / bstep) * ways, 256, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let n = (it / ways * bstep) as usize;
            let mut sp = cs[3].clone();
            sp.method = METHODS[1 + n % 3];
            let v: String = (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect();
            sp.body = format!("k={}", v).into_bytes();
            sp.form = vec![("k", v)];
            let b = sp.bytes();
            let h = sp.head_len();
            let at: Vec<usize> = match it % ways {
                0 => vec![],
                1 => vec![h],
                2 => vec![h + 1],
                3 => vec![h, b.len() - 1],
                4 => vec![h, h + 1024],
                5 => vec![h, h + 1023],
                6 => (h..b.len()).collect(),
                7 => vec![h, h + 1, h + 1025],
                _ => vec![h - 2, h + 1025],
            };
            let at: Vec<usize> = at.into_iter().filter(|x| *x < b.len()).collect();
            deliver(&sp, &sp.expect(), &cuts(&b, &at))?;
        }
        no_panics()?;
        Ok(0)
    });
    // much larger heads and bodies
    let sizes: Vec<usize> = [4096usize, 8192, 10_000, 16_384, 32_768, 65_536, 100_000].iter().flat_map(|n| [n - 1, *n, n + 1]).chain(if r.thorough { vec![262_144, 1_000_000, 1_048_577] } else { vec![262_144] }).collect();
    r.enumerate("large", sizes.len() as u64 * 12, 4, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let n = sizes[it as usize / 12];
            let big = |n: usize| -> String { (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect() };
            let mut sp = cs[3].clone();
            match it % 3 {
                0 => sp.headers.insert(0, ("Pad".into(), big(n))),
                1 => {
                    sp.body = format!("k={}", big(n)).into_bytes();
                    sp.form = vec![("k", big(n))];
                }
                _ => {
                    sp = cs[4].clone();
                    let parts = [Part { file: Some("t.bin"), name: "up", content: (0..n).map(|i| (i * 7 % 251) as u8).collect() }, Part { file: None, name: "a", content: b"v".to_vec() }];
                    sp.body = multipart(&parts, "XyZ", 0);
                    sp.form = vec![("a", "v".into())];
                    sp.files = vec![("up", "t.bin", parts[0].content.clone())];
                }
            }
            let b = sp.bytes();
            let every = [b.len(), 1000, 1460, 65_536][it as usize / 3 % 4];
            let at: Vec<usize> = (1..b.len() / every + 1).map(|x| x * every).filter(|x| *x < b.len()).collect();
            let want = sp.expect();
            OBS.get().clear();
            let rs = once_segs(&cuts(&b, &at));
            if !matches!(&rs, Ok(r) if r.status == 200 && r.body == want.as_bytes()) || OBS.get().len() != 1 || OBS.get()[0] != want {
                return fail("large", format!("kind {} with {} bytes in segments of {}: handler ran {} times, answer {}", it % 3, n, every, OBS.get().len(), match rs { Ok(r) => format!("{} with {} bytes instead of {}", r.status, r.body.len(), want.len()), Err(e) => show(e.as_bytes()) }));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // every pair of characters in header values, header names and paths
    r.enumerate("characters", n_pairs(5), 2048, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 5);
            let mut sp = cs[if it / 5 % 2 == 0 { 0 } else { 3 }].clone();
            match t {
                0 => sp.headers.push(("X-V".into(), format!("{}{}", c, d))),
                1 => sp.headers.insert(0, ("X-V".into(), format!("{} {}", c, d))),
                2 => {
                    let tchar = |x: &str| x.len() == 1 && x.chars().all(|x| x.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(x));
                    if !tchar(&c) || !tchar(&d) {
                        continue;
                    }
                    sp.headers.push((format!("X{}{}", c, d), "v".into()));
                }
                3 => sp.headers.push((format!("X-V{}", it), format!("{}:{}", c, d))),
                _ => {
                    if format!("{}{}", c, d).contains(|x| x == '/' || x == '?' || x == '#') {
                        continue;
                    }
                    sp.path = leak(format!("/{}/{}", c, d));
                }
            }
            deliver(&sp, &sp.expect(), &[&sp.bytes()])?;
        }
        no_panics()?;
        Ok(0)
    });
    // many headers
    let ct = counts(r.thorough);
    r.enumerate("counts", ct.len() as u64 * 3, 8, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let n = ct[it as usize / 3];
            let mut sp = cs[[1usize, 3, 7][it as usize % 3]].clone();
            for j in 0..n {
                let at = if j % 2 == 0 { 0 } else { sp.headers.len() };
                sp.headers.insert(at, (format!("H{}", j), format!("v{}", n - j)));
            }
            deliver(&sp, &sp.expect(), &[&sp.bytes()])?;
        }
        no_panics()?;
        Ok(0)
    });
    // every proper prefix, then the client is gone: no handler runs on half a request
    let mut pre = vec![];
    for (i, c) in cs.iter().enumerate() {
        for a in 0..c.bytes().len() {
            for end in 0..3 {
                for split in 0..2 {
                    pre.push((i, a, end, split));
                }
            }
        }
    }
    r.enumerate("truncated", pre.len() as u64, 1024, opts(), |lo, hi| {
        let _s = echo_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let (i, a, end, split) = pre[it as usize];
            let b = cs[i].bytes();
            OBS.get().clear();
            let mut c = Cl::new();
            if split == 1 && a > 1 {
                c.p.send_segments(&[&b[..a / 2], &b[a / 2..a]]);
            } else {
                c.send(&b[..a]);
            }
            match end {
                0 => c.p.shutdown_write(),
                1 => c.p.close(),
                _ => {
                    settle(5);
                    c.p.reset();
                }
            }
            if end == 0 {
                let (out, got) = c.p.recv_all(3000);
                let n = match parse_resp(&out) {
                    Ok(None) if out.is_empty() => 0,
                    Ok(Some((rs, n))) if rs.status != 200 && n == out.len() => 1,
                    _ => return fail("answer", format!("{} bytes of {:?} then end: answered {:?}", a, show(&b), show(&out))),
                };
                let _ = n;
                if got == Got::Timeout {
                    return fail("open", format!("{} bytes of {:?} then end: connection not closed", a, show(&b)));
                }
            }
            settle(20);
            if !OBS.get().is_empty() {
                return fail("half-request", format!("{} bytes of {:?} (end {}): handler ran and saw {}", a, show(&b), end, OBS.get()[0]));
            }
            c.buf.clear();
            c.p.close();
        }
        deliver(&cs[0], &cs[0].expect(), &[&cs[0].bytes()])?;
        no_panics()?;
        Ok(0)
    });
    // arrival times: segments arrive before and after the server waits for them
    for i in [1usize, 3, 4] {
        for (w, name) in ["end-of-head", "twice", "last-byte"].iter().enumerate() {
            let o = Opts { bound: if r.thorough { 4 } else { 2 }, mask: K_ALL, steps: 400_000, ..Opts::default() };
            let cs2 = cs.clone();
            r.explore(&format!("arrival-{}-{}", cs[i].name, name), o, move || {
                let _s = no_sched(|| echo_server(1, 1000));
                let sp = &cs2[i];
                let b = sp.bytes();
                let h = sp.head_len();
                let at: Vec<usize> = [vec![h - 2], vec![10, h.min(b.len() - 1)], vec![h - 1, b.len() - 1]][w].clone();
                OBS.get().clear();
                let mut c = Cl::new();
                for s in cuts(&b, &at) {
                    c.send(s);
                }
                let rs = c.next(5000);
                let ok = matches!(&rs, Ok(r) if r.status == 200 && r.body == sp.expect().as_bytes());
                if !ok || OBS.get().len() != 1 {
                    return fail("observed", format!("{} cut at {:?}: {:?}; expected {}", sp.name, at, rs, sp.expect()));
                }
                c.p.close();
                no_panics()?;
                Ok(0)
            });
        }
    }
    super::cross::requests(r, super::cross::Aspect::All);
}

// ------------------------------------------------------------------ P10
/// After the attack the single worker must serve a good request, and nothing may be left behind.
fn aftermath(what: &str, c: &mut Cl, end: usize, max: usize, base: usize) -> Result<(), Verdict> {
    // end: 0 close at once, 1 half-close and read, 2 reset, 3 wait, then close
    let count = |buf: &[u8]| -> Result<usize, Verdict> {
        let mut p = 0;
        let mut n = 0;
        while p < buf.len() {
            match parse_resp(&buf[p..]) {
                Ok(Some((_, k))) => {
                    p += k;
                    n += 1;
                }
                x => return fail("answer", format!("{}: answer {:?} is not a sequence of responses ({:?})", what, show(buf), x.err())),
            }
        }
        Ok(n)
    };
    match end {
        0 => c.p.close(),
        1 => {
            c.p.shutdown_write();
            let (out, got) = c.p.recv_all(2000);
            let n = count(&out)?;
            if n > max {
                return fail("answers", format!("{}: {} responses: {:?}", what, n, show(&out)));
            }
            if got == Got::Timeout {
                return fail("open", format!("{}: connection still open after the client finished", what));
            }
            c.p.close();
        }
        2 => c.p.reset(),
        _ => {
            let (out, _) = c.p.recv_all(30);
            let n = count(&out)?;
            if n > max {
                return fail("answers", format!("{}: {} responses: {:?}", what, n, show(&out)));
            }
            c.p.close();
        }
    }
    let mut g = Cl::new();
    g.send(&get("/one"));
    let rs = g.next(3000);
    if !matches!(&rs, Ok(r) if r.status == 200) || g.closed(3000).is_err() {
        return fail("next-request", format!("{}: the next request is answered {:?}; {} {:?}", what, rs, describe_threads(), panics()));
    }
    g.p.close();
    if !panics().is_empty() {
        return fail("server-panic", format!("{}: {:?}", what, panics()));
    }
    if live_threads() > base || open_streams() > 0 {
        settle(1200);
        calm(base, 0);
        if live_threads() > base || open_streams() > 0 {
            return fail("left-behind", format!("{}: {} threads (expected {}), {} open streams; {}", what, live_threads(), base, open_streams(), describe_threads()));
        }
    }
    Ok(())
}

fn attack(what: &str, segs: &[&[u8]], end: usize, max: usize, base: usize) -> Result<(), Verdict> {
    let mut c = Cl::new();
    c.p.send_segments(segs);
    aftermath(what, &mut c, end, max, base)
}

pub fn p10(r: &mut Run) {
    r.assume("one worker, so that a lost or stuck worker is seen by the next request; a client that keeps its connection open and idle is not covered here (P13)");
    let cs = corpus();
    let kas: Vec<Spec> = cs.iter().map(|c| Spec { conn: Some("keep-alive"), ..c.clone() }).collect();
    let all: Vec<Spec> = cs.iter().chain(kas.iter()).cloned().collect();
    // every prefix of every request, with every way to end
    let mut items = vec![];
    for (i, c) in all.iter().enumerate() {
        for a in 0..=c.bytes().len() {
            for end in 0..4 {
                items.push((i, a, end));
            }
        }
    }
    r.enumerate("prefixes", items.len() as u64, 1024, opts(), |lo, hi| {
        let _s = echo_server(1, 50);
        settle(5);
        let base = live_threads();
        for it in lo..hi {
            at_item(it);
            let (i, a, end) = items[it as usize];
            let b = all[i].bytes();
            attack(&format!("first {} bytes of {:?}, end {}", a, show(&b), end), &[&b[..a]], end, 1, base)?;
        }
        Ok(0)
    });
    // every single-byte replacement, removal, insertion
    let vals: Vec<u8> = if r.thorough { (0..=255).collect() } else { vec![0, b' ', b'\r', b'\n', b':', b'=', b'&', b'-', b'"', b';', b'/', b'?', b'#', b'0', b'9', b'A', 0x7f, 0x80, 0xc3, 0xff] };
    let nops = vals.len() * 2 + 1;
    let mut base_ix = vec![];
    let mut total = 0u64;
    let muts: Vec<Spec> = cs.iter().chain([&kas[3], &kas[4]]).cloned().collect();
    for c in &muts {
        base_ix.push(total);
        total += (c.bytes().len() * nops) as u64;
    }
    r.enumerate("mutations", total, 4096, opts(), |lo, hi| {
        let _s = echo_server(1, 50);
        settle(5);
        let base = live_threads();
        for it in lo..hi {
            at_item(it);
            let i = base_ix.iter().rposition(|x| *x <= it).unwrap();
            let k = (it - base_ix[i]) as usize;
            let mut b = muts[i].bytes();
            let (pos, op) = (k / nops, k % nops);
            if op < vals.len() {
                if b[pos] == vals[op] {
                    continue;
                }
                b[pos] = vals[op];
            } else if op < 2 * vals.len() {
                b.insert(pos, vals[op - vals.len()]);
            } else {
                b.remove(pos);
            }
            let max = if muts[i].conn.is_none() { 1 } else { b.iter().filter(|x| **x == b'\n').count() };
            let end = it as usize % 4;
            attack(&format!("bytes {:?}, end {}", show(&b), end), &[&b], end, max, base)?;
        }
        Ok(0)
    });
    // sequences of tokens, alone and after several beginnings
    let toks: Vec<&[u8]> = vec![
        b"GET ", b"POST ", b"/one", b" ", b"HTTP/1.1", b"\r\n", b"\n", b"\r", b"Host: h", b"Content-Length: 3", b"Content-Length: 9223372036854775807", b"Content-Type: multipart/form-data; boundary=b",
        b"Connection: keep-alive", b"Authorization: Basic ", b"Cookie: ", b"--b", b"--", b"Content-Disposition: form-data; name=\"a\"", b":", b"=", b"&", b"\0", b"\xff", "é".as_bytes(), b"?", b"\"", b";", b"%",
    ];
    let n = toks.len();
    let mp = b"POST /one HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 40\r\n\r\n";
    let begins: Vec<(&str, &[u8], u32)> = vec![
        ("tokens", b"", 3),
        ("line-tokens", b"GET /one HTTP/1.1\r\n", 3),
        ("header-tokens", b"POST /one HTTP/1.1\r\nHost: h\r\n", 3),
        ("length-body-tokens", b"POST /one HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 6\r\n\r\n", 3),
        ("kept-tokens", b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n", 3),
        ("target-tokens", b"GET ", 3),
        ("disposition-tokens", b"POST /one HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 60\r\n\r\n--b\r\nContent-Disposition: form-data; ", 3),
        ("multipart-tokens", mp, 3),
        ("auth-tokens", b"GET /one HTTP/1.1\r\nHost: h\r\nAuthorization: ", 3),
        ("cookie-tokens", b"GET /one HTTP/1.1\r\nHost: h\r\nCookie: ", 3),
        ("type-tokens", b"GET /one HTTP/1.1\r\nHost: h\r\nContent-Type: ", 3),
        ("length-tokens", b"POST /one HTTP/1.1\r\nHost: h\r\nContent-Length: ", 3),
    ];
    for (name, pre, d) in begins {
        let d = if r.thorough { d + 1 } else { d };
        for (k, tail) in [b"".as_slice(), b"\r\n\r\n", b" HTTP/1.1\r\nHost: h\r\n\r\n", b"\r\n\r\n--b--\r\n"].iter().enumerate() {
            let cnt = nstr(n, d);
            r.enumerate(&format!("{}-{}", name, k), cnt, 2048, opts(), |lo, hi| {
                let _s = echo_server(1, 50);
                settle(5);
                let base = live_threads();
                for it in lo..hi {
                    at_item(it);
                    let mut b = pre.to_vec();
                    b.extend(catb(&toks, &nth(n, it)));
                    b.extend(*tail);
                    let max = if b.windows(10).any(|w| w == b"keep-alive") { b.iter().filter(|x| **x == b'\n').count().max(1) } else { 1 };
                    // reading to the end sees the number of answers; the other ways to end are rotated
                    let end = if it % 2 == 0 { 1 } else { (it / 2) as usize % 4 };
                    attack(&format!("bytes {:?}, end {}", show(&b), end), &[&b], end, max, base)?;
                }
                Ok(0)
            });
        }
    }
    // the client leaves while the response is being written: every byte count
    let big = 4000usize;
    r.enumerate("write-fails", 3 * 300, 64, opts(), |lo, hi| {
        on_call(move |c, _| {
            c.resp_body(vec![b'x'; big]);
            c.response();
        });
        let mut s = new_server(1);
        s.set_keepalive(50);
        routes(&s);
        start(&s);
        settle(5);
        let base = live_threads();
        for it in lo..hi {
            at_item(it);
            let k = (it / 3) as usize;
            let k = if k < 200 { k } else { (k - 200) * 45 };
            let mut c = Cl::new();
            c.p.inp().wfail_after = Some(k);
            let rq = ["GET /one HTTP/1.1\r\nHost: h\r\n\r\n", "GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n", "GET /one HTTP/1.0\r\n\r\n"][it as usize % 3];
            c.send(rq.as_bytes());
            settle(3);
            c.p.close();
            let mut g = Cl::new();
            g.send(&get("/one"));
            let rs = g.next(3000);
            if !matches!(&rs, Ok(r) if r.status == 200) {
                return fail("next-request", format!("writes fail after {} bytes: the next request is answered {:?} {:?}", k, rs.map(|r| r.status), panics()));
            }
            g.p.close();
            settle(100);
            calm(base, 0);
            if live_threads() > base || open_streams() > 0 {
                return fail("left-behind", format!("writes fail after {} bytes: {} threads (expected {}), {} open streams", k, live_threads(), base, open_streams()));
            }
            no_panics()?;
        }
        Ok(0)
    });
    // the moment of closing, against every schedule of the threads of the connection
    for (i, rq) in [
        b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n".as_slice(),
        b"GET /one HTTP/1.1\r\nHost: h\r\n\r\n",
        b"POST /one HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nab",
        b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\nGET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n",
    ]
    .into_iter()
    .enumerate()
    {
        for (e, end) in ["close", "reset", "finish", "answered-close"].iter().enumerate() {
            let o = Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_ALL, steps: 400_000, ..Opts::default() };
            r.explore(&format!("closing-{}-{}", ["keep", "once", "half", "pipelined"][i], end), o, move || {
                let _s = no_sched(|| echo_server(1, 20));
                let base = live_threads();
                let mut c = Cl::new();
                c.send(rq);
                match e {
                    0 => c.p.close(),
                    1 => c.p.reset(),
                    2 => c.p.shutdown_write(),
                    _ => {
                        if i != 2 {
                            let x = c.next(3000);
                            if x.is_err() {
                                return fail("no-answer", format!("{:?} {:?}", x, panics()));
                            }
                        }
                        c.p.close();
                    }
                }
                settle(3);
                no_sched(|| {
                    settle(60);
                    c.buf.clear();
                    c.p.close();
                    let mut g = Cl::new();
                    g.send(&get("/one"));
                    let rs = g.next(3000);
                    if !matches!(&rs, Ok(r) if r.status == 200) {
                        return fail("next-request", format!("{:?} {:?} {}", rs, panics(), describe_threads()));
                    }
                    g.p.close();
                    settle(100);
                    calm(base, 0);
                    if live_threads() > base || open_streams() > 0 {
                        return fail("left-behind", format!("{} threads (expected {}), {} open streams; {}", live_threads(), base, open_streams(), describe_threads()));
                    }
                    no_panics()?;
                    Ok(0)
                })
            });
        }
    }
}

// ------------------------------------------------------------------ P11
struct Fault {
    what: String,
    status: u32,
    req: Vec<u8>,
}

fn raw(method: &str, target: &str, version: &str, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {} {}\r\n", method, target, version).into_bytes();
    for (k, x) in headers {
        v.extend(format!("{}: {}\r\n", k, x).bytes());
    }
    v.extend(b"\r\n");
    v.extend(body);
    v
}

const KNOWN_METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
const BAD_VERSIONS: [&str; 16] = ["HTTP/2.0", "HTTP/2", "HTTP/1", "HTTP/0.9", "HTTP/1.2", "HTTP/3.0", "http/1.1", "HTTP/1.10", "HTTP/11", "HTTPS/1.1", "HTTP/1.", "HTTP", "/1.1", "1.1", "HTTP/01.1", "XHTTP/1.1"];
const BAD_LENGTHS: [&str; 12] = ["abc", "-2", "1a", "a1", "99999999999999999999", "1.0", "0x1", "1,1", "--1", "\u{661}", "-9223372036854775808", "4 4"];
const BAD_AUTH: [&str; 8] = ["Basic !!!!", "Basic", "Basic YQ", "Basic YWI=", "Basic YTpi=", "Basic =", "basic YWJj", "Basic w6k6/w=="];
const BAD_COOKIES: [&str; 5] = ["a", "a=b; c", "c; a=b", "a=b;c;d=e", "xyz,abc"];

fn faults() -> Vec<Fault> {
    let mut v = vec![];
    let mut put = |what: String, status: u32, req: Vec<u8>| v.push(Fault { what, status, req });
    for m in ["FOO", "get", "Get", "GETX", "GE", "POS", "OPTION", "PATCHES", "X", "DELETE\u{e9}", "GET\t", "_GET", "UNLINKED", "PROPFIND"] {
        put(format!("method {:?}", m), 405, raw(m, "/one", "HTTP/1.1", &[("Host", "h")], b""));
        put(format!("method {:?} keep-alive", m), 405, raw(m, "/one", "HTTP/1.1", &[("Host", "h"), ("Connection", "keep-alive")], b""));
    }
    for m in METHODS {
        let body: &[u8] = if ["POST", "PUT", "PATCH"].contains(&m) { b"k=vv" } else { b"" };
        let cl = body.len().to_string();
        for ka in [false, true] {
            let mut base: Vec<(&str, &str)> = vec![];
            if ka {
                base.push(("Connection", "keep-alive"));
            }
            if !body.is_empty() {
                base.push(("Content-Type", "application/x-www-form-urlencoded"));
                base.push(("Content-Length", &cl));
            }
            let with = |extra: &[(&'static str, &'static str)]| -> Vec<(&str, &str)> { extra.iter().cloned().chain(base.iter().cloned()).collect() };
            for t in ["/nope", "/", "/one/", "/onex", "/on", "/a/b/c", "/one/two/three?x=/one", "/?one", "/limited/x/y"] {
                put(format!("{} target {:?}", m, t), 404, raw(m, t, "HTTP/1.1", &with(&[("Host", "h")]), body));
            }
            if m != "GET" {
                put(format!("{} on a route for GET", m), 404, raw(m, "/only-get", "HTTP/1.1", &with(&[("Host", "h")]), body));
            }
            for ver in ["HTTP/1.1", "HTTP/1.0"] {
                put(format!("{} {} no Host", m, ver), 417, raw(m, "/one", ver, &with(&[]), body));
                put(format!("{} {} no Host, others", m, ver), 417, raw(m, "/one?Host=h", ver, &with(&[("X-Host", "h"), ("Hostess", "h"), ("Hos", "t: h")]), body));
            }
            for ver in BAD_VERSIONS {
                put(format!("{} version {:?}", m, ver), 505, raw(m, "/one", ver, &with(&[("Host", "h")]), body));
            }
            for a in BAD_AUTH {
                put(format!("{} Authorization {:?}", m, a), 400, raw(m, "/one", "HTTP/1.1", &with(&[("Host", "h"), ("Authorization", a)]), body));
            }
            for a in BAD_COOKIES {
                put(format!("{} Cookie {:?}", m, a), 400, raw(m, "/one", "HTTP/1.1", &with(&[("Host", "h"), ("Cookie", a)]), body));
            }
            if !body.is_empty() {
                for l in BAD_LENGTHS {
                    let mut h: Vec<(&str, &str)> = vec![("Host", "h"), ("Content-Length", l)];
                    if ka {
                        h.push(("Connection", "keep-alive"));
                    }
                    put(format!("{} Content-Length {:?}", m, l), 411, raw(m, "/one", "HTTP/1.1", &h, body));
                }
            }
        }
    }
    v
}

static RUNS: Cell<Vec<Tag>> = Cell::new(vec![]);

fn refuse_server() -> HttpServer {
    on_call(|c, tag| {
        RUNS.get().push(tag);
        if let Tag::H(_) = tag {
            c.resp_body(b"ok".to_vec());
            c.response();
        }
    });
    let mut s = new_server(1);
    s.set_keepalive(500);
    let g = s.router_wf("", starry::Extend::e1(vec![FS[0]]));
    g.get("/one", HS[0]);
    g.post("/one", HS[1]);
    g.put("/one", HS[2]);
    g.patch("/one", HS[3]);
    g.delete("/one", HS[4]);
    g.head("/one", HS[5]);
    g.trace("/one", HS[6]);
    g.get("/only-get", HS[7]);
    g.get("/a/b", HS[7]);
    start(&s);
    s
}

/// `before` good requests on the connection, then the bad one (in these segments), then another one.
fn refused(f: &Fault, cut: Option<usize>, pos: usize) -> Result<(), Verdict> {
    let good = b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n";
    let ctx = |x: &str| format!("{}: request {:?} cut {:?} position {}: {}", f.what, show(&f.req), cut, pos, x);
    RUNS.get().clear();
    let mut c = Cl::new();
    let mut stream = vec![];
    // 0 alone; 1 after a good one (answered); 2 pipelined behind a good one; 3 a good one pipelined behind it; 4 after two
    let before = [0, 1, 1, 0, 2][pos];
    if pos == 1 || pos == 4 {
        for _ in 0..before {
            c.send(good);
            match c.next(3000) {
                Ok(r) if r.status == 200 => {}
                x => return fail("good", ctx(&format!("a good request before it: {:?}", x))),
            }
        }
    } else {
        for _ in 0..before {
            stream.extend(good);
        }
    }
    let off = stream.len();
    stream.extend(&f.req);
    if pos == 3 {
        stream.extend(good);
    }
    match cut {
        Some(k) => c.p.send_segments(&[&stream[..off + k], &stream[off + k..]]),
        None => c.send(&stream),
    }
    if pos == 2 {
        match c.next(3000) {
            Ok(r) if r.status == 200 => {}
            x => return fail("good", ctx(&format!("the good request before it: {:?} {:?}", x, panics()))),
        }
    }
    let rs = match c.next(3000) {
        Ok(r) => r,
        Err(e) => return fail("no-answer", ctx(&format!("{} {:?}", e, panics()))),
    };
    if rs.status != f.status {
        return fail("status", ctx(&format!("answered {} {:?}, expected {}", rs.status, rs.phrase, f.status)));
    }
    if let Err(e) = c.closed(3000) {
        return fail("not-closed", ctx(&e));
    }
    c.p.close();
    let want: Vec<Tag> = (0..before).flat_map(|_| [Tag::F(0), Tag::H(0)]).collect();
    if *RUNS.get() != want {
        return fail("ran", ctx(&format!("calls {:?}, expected {:?}", RUNS.get(), want)));
    }
    Ok(())
}

pub fn p11(r: &mut Run) {
    r.assume("each request has exactly one of the faults; the empty method and the length -1 are not covered");
    let fs = faults();
    let mut items = vec![];
    for (i, f) in fs.iter().enumerate() {
        for pos in 0..5 {
            items.push((i, None, pos));
            if r.thorough || pos == i % 5 {
                for k in 1..f.req.len() {
                    items.push((i, Some(k), pos));
                }
            }
        }
    }
    r.enumerate("faults", items.len() as u64, 1024, opts(), |lo, hi| {
        let _s = refuse_server();
        for it in lo..hi {
            at_item(it);
            let (i, cut, pos) = items[it as usize];
            refused(&fs[i], cut, pos)?;
        }
        no_panics()?;
        Ok(0)
    });
    // every string over an alphabet in the place of the method and of the version
    let letters = ["G", "E", "T", "P", "O", "S", "U", "R", "I"];
    let d = if r.thorough { 6 } else { 5 };
    r.enumerate("methods", nstr(letters.len(), d) - 1, 2048, opts(), |lo, hi| {
        let _s = refuse_server();
        for it in lo..hi {
            at_item(it);
            let m = cat(&letters, &nth(letters.len(), it + 1));
            if KNOWN_METHODS.contains(&m.as_str()) {
                continue;
            }
            refused(&Fault { what: format!("method {:?}", m), status: 405, req: raw(&m, "/one", "HTTP/1.1", &[("Host", "h")], b"") }, None, 0)?;
        }
        no_panics()?;
        Ok(0)
    });
    // every known method with one character removed, doubled, replaced or in lower case
    let mut near = vec![];
    for m in KNOWN_METHODS {
        let b: Vec<char> = m.chars().collect();
        for i in 0..b.len() {
            for op in 0..4 {
                let mut x = b.clone();
                match op {
                    0 => {
                        x.remove(i);
                    }
                    1 => x.insert(i, b[i]),
                    2 => x[i] = x[i].to_ascii_lowercase(),
                    _ => x[i] = if b[i] == 'Q' { 'Z' } else { 'Q' },
                }
                near.push(x.into_iter().collect::<String>());
            }
        }
        near.push(m.to_ascii_lowercase());
        near.push(format!("{}S", m));
    }
    near.retain(|m| !KNOWN_METHODS.contains(&m.as_str()) && !m.is_empty());
    r.enumerate("methods-near", near.len() as u64, 256, opts(), |lo, hi| {
        let _s = refuse_server();
        for it in lo..hi {
            at_item(it);
            let m = &near[it as usize];
            refused(&Fault { what: format!("method {:?}", m), status: 405, req: raw(m, "/one", "HTTP/1.1", &[("Host", "h")], b"") }, None, it as usize % 5)?;
        }
        no_panics()?;
        Ok(0)
    });
    let vt = ["HTTP", "/", "1", ".", "0", "2", "http", "S"];
    let d = if r.thorough { 6 } else { 5 };
    r.enumerate("versions", nstr(vt.len(), d) - 1, 2048, opts(), |lo, hi| {
        let _s = refuse_server();
        for it in lo..hi {
            at_item(it);
            let v = cat(&vt, &nth(vt.len(), it + 1));
            if v == "HTTP/1.1" || v == "HTTP/1.0" {
                continue;
            }
            refused(&Fault { what: format!("version {:?}", v), status: 505, req: raw("GET", "/one", &v, &[("Host", "h")], b"") }, None, 0)?;
        }
        no_panics()?;
        Ok(0)
    });
    let lt = ["0", "1", "9", "-", "a", ".", "+", "e", "_", "\u{663}"];
    let d = if r.thorough { 5 } else { 4 };
    r.enumerate("lengths", (nstr(lt.len(), d) - 1) * 3, 2048, opts(), |lo, hi| {
        let _s = refuse_server();
        for it in lo..hi {
            at_item(it);
            let l = cat(&lt, &nth(lt.len(), it / 3 + 1));
            let m = METHODS[1 + (it % 3) as usize];
            // what is no length at all: anything but digits; '+5', '-0' and '-1' are left open
            let t = l.strip_prefix(|c| c == '+' || c == '-').unwrap_or(&l);
            let digits = !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
            if digits && (!l.starts_with('-') || t.trim_start_matches('0').is_empty() || t.trim_start_matches('0') == "1") {
                continue;
            }
            refused(&Fault { what: format!("{} Content-Length {:?}", m, l), status: 411, req: raw(m, "/one", "HTTP/1.1", &[("Host", "h"), ("Content-Length", &l)], b"k=v") }, None, 0)?;
        }
        no_panics()?;
        Ok(0)
    });
}

// ------------------------------------------------------------------ P12
/// Requests of one kept-alive connection. The handler's answer depends on everything it sees.
fn ka_kinds() -> Vec<Spec> {
    let form = "application/x-www-form-urlencoded";
    let d = Spec { method: "GET", path: "/one", version: "1.1", ..Spec::default() };
    let parts = [Part { file: None, name: "a", content: b"va".to_vec() }, Part { file: Some("t.bin"), name: "up", content: b"\r\n\r\nGET /".to_vec() }];
    vec![
        Spec { name: "get", ..d.clone() },
        Spec { name: "query", path: "/p/q", query: "a=1&b=2", params: vec![("a", "1"), ("b", "2")], headers: hv(&[("X-A", "1")]), ..d.clone() },
        Spec { name: "form", method: "POST", headers: hv(&[("Content-Type", form)]), body: b"a=f1&k=f2".to_vec(), length: true, form: vec![("a", "f1".into()), ("k", "f2".into())], ..d.clone() },
        Spec {
            name: "multipart", method: "POST", headers: hv(&[("Content-Type", "multipart/form-data; boundary=B")]), body: multipart(&parts, "B", 1), length: true,
            form: vec![("a", "va".into())], files: vec![("up", "t.bin", parts[1].content.clone())], ..d.clone()
        },
        Spec { name: "cookie-auth", headers: hv(&[("Cookie", "c1=v1"), ("Authorization", "Basic dTpwOnE=")]), cookies: vec![("c1", "v1")], user: Some(("u", "p:q")), ..d.clone() },
        Spec { name: "put-raw", method: "PUT", path: "/u/v", body: b"GET /one HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(), length: true, ..d.clone() },
        Spec { name: "delete-body", method: "DELETE", path: "/u/v", body: b"hello".to_vec(), length: true, ..d.clone() },
        Spec { name: "form-empty", method: "PATCH", query: "k", params: vec![("k", "")], headers: hv(&[("Content-Type", form)]), length: true, ..d.clone() },
        Spec { name: "http10", version: "1.0", query: "zz=9", params: vec![("zz", "9")], ..d.clone() },
        Spec { name: "post-none", method: "POST", path: "/u/w", headers: hv(&[("Content-Type", form)]), ..d.clone() },
    ]
}

fn norm(r: &Resp) -> (String, u32, String, Vec<(String, String)>, Vec<u8>) {
    let mut h = r.headers.clone();
    h.sort();
    (r.version.clone(), r.status, r.phrase.clone(), h, r.body.clone())
}

/// A server whose response differs in status, headers, cookies and body by request.
fn ka_server(pool: usize, keepalive: i64) -> HttpServer {
    on_call(|c, tag| {
        let o = observe(c, tag);
        OBS.get().push(o.clone());
        if c.req_have_param("a") {
            c.resp_add_header("X-Multi".into(), "1".into());
            c.resp_add_header("X-Multi".into(), "2".into());
            c.resp_status(starry::Status::CREATED);
        }
        if c.req_cookie_get("c1").is_some() {
            c.resp_add_header_str("Set-Cookie", "s=1");
            c.resp_content_type(starry::header::ContentType::APPLICATION_JSON);
        }
        if let Tag::H(2) = tag {
            c.response(); // no body at all
            return;
        }
        if let Tag::H(4) = tag {
            c.resp_bodies(o.into_bytes(), starry::header::ContentType::TEXT_HTML);
            c.resp_status(starry::Status::ACCEPTED);
        } else {
            c.resp_body(o.into_bytes());
        }
        c.response();
    });
    let mut s = new_server(pool);
    s.set_keepalive(keepalive);
    routes(&s);
    start(&s);
    s
}

/// What each kind is answered when it is the only request.
fn alone(ks: &[Spec]) -> Result<Vec<Resp>, Verdict> {
    let mut v = vec![];
    for k in ks {
        OBS.get().clear();
        let mut c = Cl::new();
        c.send(&k.bytes());
        match c.next(2000) {
            Ok(r) => v.push(r),
            Err(e) => return fail("alone", format!("{}: {} {:?}", k.name, e, panics())),
        }
        let last: &Resp = &v[v.len() - 1];
        let kept = last.all("Connection").iter().any(|x| x.eq_ignore_ascii_case("keep-alive"));
        if kept != (k.conn == Some("keep-alive")) {
            return fail("announced", format!("{} with Connection {:?}: answered with Connection {:?}", k.name, k.conn, last.all("Connection")));
        }
        if OBS.get().len() != 1 || OBS.get()[0] != k.expect() {
            return fail("alone", format!("{}: handler sees {:?}, expected {}", k.name, OBS.get(), k.expect()));
        }
        c.p.close();
    }
    Ok(v)
}

fn check_seq(c: &mut Cl, seq: &[usize], ks: &[Spec], al: &[Resp], from: usize, to: usize, ctx: &dyn Fn(&str) -> String) -> Result<(), Verdict> {
    for j in from..to {
        let rs = match c.next(3000) {
            Ok(r) => r,
            Err(e) => return fail("no-answer", ctx(&format!("request {} ({}): {} {:?}", j, ks[seq[j]].name, e, panics()))),
        };
        if norm(&rs) != norm(&al[seq[j]]) {
            return fail("response", ctx(&format!("request {} ({}): answered {:?}, alone it is answered {:?}", j, ks[seq[j]].name, rs, al[seq[j]])));
        }
    }
    Ok(())
}

pub fn p12(r: &mut Run) {
    r.assume("10 request kinds that differ in method, target, headers, cookies, credentials, form and body; requests after one that ends the connection are not sent by a client that waits, and not answered when pipelined");
    let kinds: Vec<Spec> = ka_kinds().into_iter().map(|k| Spec { conn: Some("keep-alive"), ..k }).collect();
    let n = kinds.len();
    let last: Vec<Option<&'static str>> = vec![Some("keep-alive"), None, Some("close"), Some("Keep-Alive2"), Some("keep-alive, Upgrade"), Some("Upgrade"), Some("")];
    let len = if r.thorough { 4 } else { 3 };
    let total = nstr(n, len) - 1;
    let modes = 5u64;
    let fins = last.len() as u64;
    r.enumerate("sequences", total * modes * fins, 512, opts(), |lo, hi| {
        let _s = ka_server(1, 1000);
        // the kinds with keep-alive, then with every other ending
        let ks: Vec<Spec> = last.iter().flat_map(|l| kinds.iter().map(move |k| Spec { conn: *l, ..k.clone() })).collect();
        let al = alone(&ks)?;
        for it in lo..hi {
            at_item(it);
            let mut seq = nth(n, it / modes / fins + 1);
            let mode = it % modes;
            // the last request ends the connection in one of the ways (or not)
            let fin = (it / modes % fins) as usize;
            let m = seq.len();
            seq[m - 1] += n * fin;
            let ctx = |x: &str| format!("requests {:?} (delivery {}), last with Connection {:?}: {}", seq.iter().map(|&i| ks[i].name).collect::<Vec<_>>(), mode, last[fin], x);
            OBS.get().clear();
            let mut c = Cl::new();
            let all: Vec<u8> = seq.iter().flat_map(|&i| ks[i].bytes()).collect();
            match mode {
                0 => {
                    for (j, &i) in seq.iter().enumerate() {
                        c.send(&ks[i].bytes());
                        check_seq(&mut c, &seq, &ks, &al, j, j + 1, &ctx)?;
                        if !c.buf.is_empty() {
                            return fail("extra", ctx(&format!("after request {}: extra bytes {:?}", j, show(&c.buf))));
                        }
                    }
                }
                1 => c.send(&all),
                2 => {
                    let segs: Vec<Vec<u8>> = seq.iter().map(|&i| ks[i].bytes()).collect();
                    c.p.send_segments(&segs.iter().map(|x| x.as_slice()).collect::<Vec<_>>());
                }
                3 => {
                    let segs: Vec<&[u8]> = all.chunks(1).collect();
                    c.p.send_segments(&segs);
                }
                _ => {
                    let segs: Vec<&[u8]> = all.chunks(37).collect();
                    for s in segs {
                        c.send(s);
                        settle(1);
                    }
                }
            }
            if mode != 0 {
                check_seq(&mut c, &seq, &ks, &al, 0, m, &ctx)?;
            }
            if fin == 0 {
                // still open: one more is served
                c.send(&ks[0].bytes());
                match c.next(3000) {
                    Ok(r) if norm(&r) == norm(&al[0]) => {}
                    x => return fail("closed", ctx(&format!("the connection does not serve another request: {:?}", x))),
                }
                OBS.get().pop();
            } else if let Err(e) = c.closed(900) {
                return fail("not-closed", ctx(&e));
            }
            c.p.close();
            let want: Vec<String> = seq.iter().map(|&i| ks[i].expect()).collect();
            if *OBS.get() != want {
                return fail("observed", ctx(&format!("handlers saw {:?}, expected {:?}", OBS.get(), want)));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // requests pipelined behind one that ends the connection: not handled, one answer per handled request
    r.enumerate("after-end", (n * n * n * (last.len() - 1)) as u64, 512, opts(), |lo, hi| {
        let _s = ka_server(1, 1000);
        let ks: Vec<Spec> = last.iter().flat_map(|l| kinds.iter().map(move |k| Spec { conn: *l, ..k.clone() })).collect();
        let al = alone(&ks)?;
        for it in lo..hi {
            at_item(it);
            let i = it as usize;
            let (a, b, c3, e) = (i % n, i / n % n, i / n / n % n, i / n / n / n + 1);
            let seq = [a, b + e * n, c3];
            let ctx = |x: &str| format!("requests {:?}, the second with Connection {:?}: {}", seq.map(|i| ks[i].name), last[e], x);
            OBS.get().clear();
            let mut c = Cl::new();
            c.send(&seq.iter().flat_map(|&i| ks[i].bytes()).collect::<Vec<u8>>());
            check_seq(&mut c, &seq, &ks, &al, 0, 2, &ctx)?;
            if let Err(e) = c.closed(900) {
                return fail("not-closed", ctx(&e));
            }
            c.p.close();
            if OBS.get().len() != 2 {
                return fail("observed", ctx(&format!("{} requests handled", OBS.get().len())));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // two requests in one stream, every cut (thorough: every two cuts for the shorter ones)
    let mut items = vec![];
    for a in 0..n {
        for b in 0..n {
            let t = kinds[a].bytes().len() + kinds[b].bytes().len();
            for x in 1..t {
                items.push((a, b, x, x));
                if r.thorough && t < 170 {
                    for y in x + 1..t {
                        items.push((a, b, x, y));
                    }
                }
            }
        }
    }
    r.enumerate("stream-cuts", items.len() as u64, 1024, opts(), |lo, hi| {
        let _s = ka_server(1, 1000);
        let al = alone(&kinds)?;
        for it in lo..hi {
            at_item(it);
            let (a, b, x, y) = items[it as usize];
            let seq = [a, b];
            let ctx = |e: &str| format!("requests {:?} cut at {} {}: {}", seq.map(|i| kinds[i].name), x, y, e);
            OBS.get().clear();
            let all: Vec<u8> = seq.iter().flat_map(|&i| kinds[i].bytes()).collect();
            let mut c = Cl::new();
            c.p.send_segments(&cuts(&all, &[x, y]));
            check_seq(&mut c, &seq, &kinds, &al, 0, 2, &ctx)?;
            if !c.buf.is_empty() {
                return fail("extra", ctx(&format!("extra bytes {:?}", show(&c.buf))));
            }
            c.p.close();
            if *OBS.get() != seq.map(|i| kinds[i].expect()) {
                return fail("observed", ctx(&format!("handlers saw {:?}", OBS.get())));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // sizes around the read buffer: a body and the request behind it
    let step = if r.thorough { 1 } else { 5 };
    r.enumerate("stream-sizes", 3200 / step * 3, 128, opts(), |lo, hi| {
        let _s = ka_server(1, 1000);
        for it in lo..hi {
            at_item(it);
            let len = (it / 3 * step) as usize;
            let v = "y".repeat(len);
            let mut f = kinds[2].clone();
            f.body = format!("k={}", v).into_bytes();
            f.form = vec![("k", v.clone())];
            let g = if it % 2 == 0 { kinds[0].clone() } else { kinds[1].clone() };
            let ctx = |e: &str| format!("form of {} bytes, then {}; delivery {}: {}", len, g.name, it % 3, e);
            OBS.get().clear();
            let all = [f.bytes(), g.bytes(), kinds[4].bytes()].concat();
            let mut c = Cl::new();
            match it % 3 {
                0 => c.send(&all),
                1 => c.p.send_segments(&all.chunks(1024).collect::<Vec<_>>()),
                _ => c.p.send_segments(&all.chunks(700).collect::<Vec<_>>()),
            }
            let want = [f.expect(), g.expect(), kinds[4].expect()];
            for j in 0..3 {
                match c.next(3000) {
                    Ok(r) if r.body == want[j].as_bytes() => {}
                    x => return fail("response", ctx(&format!("request {}: {:?}", j, x))),
                }
            }
            c.p.close();
            if *OBS.get() != want {
                return fail("observed", ctx(&format!("handlers saw {:?}", OBS.get())));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // long histories on one connection
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 3 * 4, 12, opts(), |lo, hi| {
        let _s = ka_server(1, 60_000);
        let ks: Vec<Spec> = kinds.iter().cloned().chain(kinds.iter().map(|k| Spec { conn: None, ..k.clone() })).collect();
        let al = alone(&ks)?;
        for it in lo..hi {
            at_item(it);
            let m = cs[it as usize / 12] + 1;
            // always the same kind, the kinds in turn, two kinds in blocks
            let mut seq: Vec<usize> = (0..m)
                .map(|j| match it / 3 % 4 {
                    0 => 0,
                    1 => 2,
                    2 => j % n,
                    _ => [1, 4][j / 7 % 2],
                })
                .collect();
            seq[m - 1] += n;
            let mode = it % 3;
            let ctx = |x: &str| format!("{} requests, pattern {}, delivery {}, the last without keep-alive: {}", m, it / 3 % 4, mode, x);
            OBS.get().clear();
            let mut c = Cl::new();
            match mode {
                0 => {
                    for (j, &i) in seq.iter().enumerate() {
                        c.send(&ks[i].bytes());
                        check_seq(&mut c, &seq, &ks, &al, j, j + 1, &ctx)?;
                    }
                }
                1 => c.send(&seq.iter().flat_map(|&i| ks[i].bytes()).collect::<Vec<u8>>()),
                _ => {
                    let segs: Vec<Vec<u8>> = seq.iter().map(|&i| ks[i].bytes()).collect();
                    c.p.send_segments(&segs.iter().map(|x| x.as_slice()).collect::<Vec<_>>());
                }
            }
            if mode != 0 {
                check_seq(&mut c, &seq, &ks, &al, 0, m, &ctx)?;
            }
            if let Err(e) = c.closed(20_000) {
                return fail("not-closed", ctx(&e));
            }
            c.p.close();
            if OBS.get().len() != m || OBS.get().iter().zip(&seq).any(|(o, &i)| *o != ks[i].expect()) {
                return fail("observed", ctx(&format!("{} requests were handled, or other ones", OBS.get().len())));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // every schedule of the threads of the connection: two requests, one after the other or pipelined
    for (mode, name) in ["sequential", "pipelined"].iter().enumerate() {
        for ka in [500i64, 3000] {
            let o = Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_ALL, steps: 400_000, ..Opts::default() };
            let kinds = kinds.clone();
            r.explore(&format!("schedules-{}-{}", name, ka), o, move || {
                let _s = no_sched(|| ka_server(1, ka));
                let seq = [1usize, 2];
                let mut c = Cl::new();
                let mut fin = kinds[2].clone();
                fin.conn = None;
                let b = [kinds[1].bytes(), fin.bytes()];
                OBS.get().clear();
                let mut got = vec![];
                if mode == 0 {
                    c.send(&b[0]);
                    got.push(c.next(3000));
                    c.send(&b[1]);
                    got.push(c.next(3000));
                } else {
                    c.send(&b.concat());
                    got.push(c.next(3000));
                    got.push(c.next(3000));
                }
                let want = [kinds[1].expect(), fin.expect()];
                for j in 0..2 {
                    let ok = matches!(&got[j], Ok(r) if r.body == want[j].as_bytes());
                    if !ok {
                        return fail("response", format!("{:?} request {}: {:?}", seq, j, got[j]));
                    }
                }
                no_sched(|| {
                    if let Err(e) = c.closed(3000 + ka as u64) {
                        return fail("not-closed", e);
                    }
                    c.p.close();
                    if *OBS.get() != want {
                        return fail("observed", format!("handlers saw {:?}", OBS.get()));
                    }
                    no_panics()?;
                    Ok(0)
                })
            });
        }
    }
    super::cross::kept(r);
}

// ------------------------------------------------------------------ P13
/// How much later than the keep-alive time a connection may be closed (a timer may poll).
const LATE: u64 = 100;
/// Gives the server's threads up to a second to become as few as expected.
fn calm(threads: usize, streams: usize) {
    for _ in 0..200 {
        if live_threads() <= threads && open_streams() <= streams {
            break;
        }
        settle(5);
    }
}
/// Keep-alive time and gaps between the requests of one connection; when is it closed?
pub fn p13(r: &mut Run) {
    r.assume("virtual time: the server's threads take (almost) no time by themselves, so closing times are checked exactly from below and to 100 ms from above; gaps are measured from the answer to the next request, up to 5 requests");
    let ks = [8i64, 10, 11, 50, 100, 999, 1000, 30_000];
    let len = if r.thorough { 5 } else { 4 };
    // gap kinds: 0, half, K-4 (just in time)
    let per: u64 = (1..=len).map(|l| 3u64.pow(l as u32)).sum::<u64>() + 1;
    r.enumerate("gaps", ks.len() as u64 * per, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let k = ks[(it / per) as usize];
            let gaps: Vec<u64> = nth(3, it % per).iter().map(|g| [0, k as u64 / 2, (k as u64).saturating_sub(4)][*g]).collect();
            idle(&gaps, k, 0)?;
        }
        no_panics()?;
        Ok(0)
    });
    // a gap longer than the keep-alive time: closed at the right moment, the late request is not served
    r.enumerate("late", ks.len() as u64 * 16, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let k = ks[(it / 16) as usize];
            let n = (it % 4) as usize;
            let over = [LATE + 5, 2 * LATE, 10_000, 3 * k as u64 + LATE + 5][(it / 4 % 4) as usize];
            idle(&vec![k as u64 / 2; n], k, over)?;
        }
        no_panics()?;
        Ok(0)
    });
    // the wall clock is set forward or back, between requests or while the connection is idle
    let st = super::limit::STEPS;
    r.enumerate("clock-steps", ks.len() as u64 * st.len() as u64 * 12, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let k = ks[it as usize % ks.len()];
            let x = it as usize / ks.len();
            let step = st[x % st.len()];
            let (n, at) = (x / st.len() % 3, x / st.len() / 3);
            if at > n {
                continue;
            }
            *STEP.get() = (at + 1, step);
            idle(&vec![(k as u64).saturating_sub(4); n], k, 0).map_err(|v| Verdict { key: v.key, msg: format!("the wall clock moves by {} ms during gap {}: {}", step, at, v.msg) })?;
        }
        Ok(0)
    });
    // the last answered request is followed by the beginning of another one that never arrives in full
    let tail = b"POST /one?x=1 HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nContent-Length: 5\r\n\r\nab";
    r.enumerate("unfinished", tail.len() as u64 * 3 * 4, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let cut = (it / 12) as usize + 1;
            let k = [20i64, 100, 1000][(it % 3) as usize];
            // requests before, and whether the beginning comes together with the last of them
            let (n, glued) = [(1usize, true), (2, true), (1, false), (2, false)][(it / 3 % 4) as usize];
            let _s = echo_server(1, k);
            settle(5);
            let base = live_threads();
            let mut c = Cl::new();
            for i in 0..n {
                let mut b = b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n".to_vec();
                if glued && i + 1 == n {
                    b.extend(&tail[..cut]);
                }
                c.send(&b);
                match c.next(100_000) {
                    Ok(r) if r.status == 200 => {}
                    x => return fail("not-served", format!("request {}: {:?}", i, x)),
                }
            }
            if !glued {
                c.send(&tail[..cut]);
            }
            let t0 = now_ms();
            let _ = c.p.recv(Some(k as u64 + 5_000));
            let t = c.p.other_closed_ms();
            if !t.map_or(false, |t| t >= t0 + k as u64 - 3 && t <= t0 + k as u64 + LATE) {
                return fail("unfinished", format!("keep-alive {} ms, {} requests, then {:?} (same segment: {}) and nothing more at {}: closed at {:?}", k, n, show(&tail[..cut]), glued, t0, t));
            }
            settle(5);
            calm(base, 0);
            if live_threads() > base || open_streams() > 0 {
                return fail("left-behind", format!("{} threads, {} before, {} open streams", live_threads(), base, open_streams()));
            }
            c.p.close();
            no_panics()?;
        }
        Ok(0)
    });
    // many requests, each in time
    let cs = counts(r.thorough);
    r.enumerate("many", cs.len() as u64 * 4 * 3, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 12];
            let k = [8i64, 20, 100, 1000][(it / 3 % 4) as usize];
            let j = k as u64 - 4;
            let gaps: Vec<u64> = (0..n as u64).map(|i| [j, k as u64 / 2, [0, j, 1][i as usize % 3]][(it % 3) as usize]).collect();
            idle(&gaps, k, 0)?;
        }
        no_panics()?;
        Ok(0)
    });
    // handlers that take time: the timeout counts from the end of the handling
    r.enumerate("slow-handlers", 8 * 8 * 8 * 4 * 2, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let k = [20i64, 100][(it % 2) as usize];
            let mut x = it / 2;
            let mut d = vec![];
            for _ in 0..3 {
                d.push([0u64, 1, 10, 15, 19, 30, 100, 1000][(x % 8) as usize]);
                x /= 8;
            }
            slow(&d, k, [0, k as u64 / 4, k as u64 / 2, k as u64 - 4][x as usize])?;
        }
        no_panics()?;
        Ok(0)
    });
    // a handler panics on the n-th request of the connection: it is closed in time, nothing stays behind
    r.enumerate("handler-panics", 4 * 3, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = it % 4;
            let k = [20i64, 100, 1000][(it / 4) as usize];
            on_call(|c, _| {
                if c.req_have_param("boom") {
                    panic!("handler");
                }
                c.resp_body(b"ok".to_vec());
                c.response();
            });
            let mut s = new_server(1);
            s.set_keepalive(k);
            routes(&s);
            start(&s);
            settle(5);
            let base = live_threads();
            let mut c = Cl::new();
            for _ in 0..n {
                kept(&mut c, 0)?;
            }
            c.send(b"GET /one?boom=1 HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
            let g = c.p.recv(Some(k as u64 + LATE));
            if !matches!(g, Got::Eof | Got::Reset) {
                return fail("closing-time", format!("keep-alive {} ms, handler panics on request {}: {:?}", k, n, g));
            }
            settle(5);
            calm(base, 0);
            if live_threads() > base || open_streams() > 0 {
                return fail("left-behind", format!("keep-alive {} ms, handler panics on request {}: {} threads (expected {}), {} open streams", k, n, live_threads(), base, open_streams()));
            }
            let mut g = Cl::new();
            kept(&mut g, 1)?;
            c.p.close();
            g.p.close();
        }
        Ok(0)
    });
    // several connections with different histories on one server: independent clocks
    r.enumerate("several", 27 * 4, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let k = 100u64;
            let _s = echo_server(3, k as i64);
            settle(5);
            let base = live_threads();
            // three connections, each last used at a different time
            let mut cs: Vec<Cl> = (0..3).map(|i| Cl::from(0x0A000001 + i, 1000)).collect();
            let mut last = [0u64; 3];
            let mut x = it;
            for (i, c) in cs.iter_mut().enumerate() {
                kept(c, i)?;
                last[i] = now_ms();
            }
            for step in 0..3 {
                settle(25 + 10 * (it / 27));
                let i = (x % 3) as usize;
                x /= 3;
                if now_ms() < last[i] + k {
                    kept(&mut cs[i], i).map_err(|v| Verdict { msg: format!("history {} step {}: {}", it, step, v.msg), ..v })?;
                    last[i] = now_ms();
                }
            }
            for (i, c) in cs.iter_mut().enumerate() {
                let g = c.p.recv(Some(3000));
                let t = c.p.other_closed_ms();
                if !matches!(g, Got::Eof | Got::Reset) || !t.map_or(false, |t| t >= last[i] + k && t <= last[i] + k + LATE) {
                    return fail("closing-time", format!("history {}: connection {} last used at {}, closed at {:?} ({:?}); keep-alive {}", it, i, last[i], t, g, k));
                }
            }
            settle(5);
            calm(base, 0);
            if live_threads() > base || open_streams() > 0 {
                return fail("left-behind", format!("{} threads (expected {}), {} open streams", live_threads(), base, open_streams()));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // one connection after the other on one server: each is closed in time and leaves nothing behind
    let n = if r.thorough { 3000 } else { 600 };
    r.enumerate("one-after-the-other", 12, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (k, way) = ([8u64, 20, 100][(it % 3) as usize], it / 3);
            let workers = 2;
            let _s = echo_server(workers, k as i64);
            settle(5);
            let base = live_threads();
            let mut open: Vec<Cl> = vec![];
            for j in 0..n {
                let mut c = Cl::from(0x0A000001 + j as u32, 1000);
                let what = |e: String| format!("keep-alive {} ms, way {}, connection number {}: {}", k, way, j, e);
                for i in 0..1 + j % 3 {
                    kept(&mut c, i % 4).map_err(|v| Verdict { key: v.key, msg: what(v.msg) })?;
                    if way == 2 {
                        settle(k - 4);
                    }
                }
                match way {
                    // the client closes it
                    0 => c.p.close(),
                    1 => {
                        let t0 = now_ms();
                        let g = c.p.recv(Some(k + 5_000));
                        let t = c.p.other_closed_ms();
                        if !matches!(g, Got::Eof | Got::Reset) || !t.map_or(false, |t| t >= t0 + k && t <= t0 + k + LATE) {
                            return fail("closing-time", what(format!("last used at {}, then {:?}, closed at {:?}", t0, g, t)));
                        }
                        c.p.close();
                    }
                    // a new connection while the one before is idle
                    2 | 3 => {
                        open.push(c);
                        if open.len() >= workers {
                            let mut c = open.remove(0);
                            let g = c.p.recv(Some(k + 5_000));
                            if !matches!(g, Got::Eof | Got::Reset) {
                                return fail("closing-time", what(format!("the connection before it is not closed: {:?}", g)));
                            }
                            c.p.close();
                        }
                    }
                    _ => {}
                }
                if j % 50 == 49 {
                    settle(k + 5);
                    calm(base, open.len());
                    if live_threads() > base || open_streams() > open.len() {
                        return fail("left-behind", what(format!("{} threads (expected {}), {} open streams", live_threads(), base, open_streams())));
                    }
                }
            }
            no_panics()?;
        }
        Ok(0)
    });
    // every schedule of the two threads of a connection around one timeout
    for (name, gap) in [("just-in-time", 16u64), ("at-once", 0), ("half", 10)] {
        let o = Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_ALL, steps: 400_000, ..Opts::default() };
        r.explore(&format!("schedules-{}", name), o, move || {
            let _s = no_sched(|| echo_server(1, 20));
            let base = live_threads();
            let mut c = Cl::new();
            kept(&mut c, 0)?;
            settle(gap);
            kept(&mut c, 1)?;
            let t0 = now_ms();
            let g = c.p.recv(Some(2000));
            let t = now_ms();
            if !matches!(g, Got::Eof | Got::Reset) || t > t0 + 20 + LATE {
                return fail("closing-time", format!("last used at {}, {:?} at {}", t0, g, t));
            }
            no_sched(|| {
                settle(60);
                calm(base, 0);
                if live_threads() > base || open_streams() > 0 {
                    return fail("left-behind", format!("{} threads (expected {}), {} open streams; {}", live_threads(), base, open_streams(), describe_threads()));
                }
                no_panics()?;
                Ok(0)
            })
        });
    }
}

/// before which request (the number of requests: while the connection is idle) the wall clock moves, by how much
static STEP: Cell<(usize, i64)> = Cell::new((0, 0));
/// Requests at these gaps, then silence (or, with `over`, a request that comes too late).
fn idle(gaps: &[u64], k: i64, over: u64) -> Result<(), Verdict> {
    let _s = echo_server(1, k);
    settle(5);
    let base = live_threads();
    let ctx = |e: String| format!("keep-alive {} ms, requests at gaps {:?}: {}", k, gaps, e);
    let mut c = Cl::new();
    kept(&mut c, 0)?;
    for (i, g) in gaps.iter().enumerate() {
        settle(*g / 2);
        if STEP.get().0 == i + 1 {
            step_clock(STEP.get().1);
        }
        settle(*g - *g / 2);
        if let Err(v) = kept(&mut c, 0) {
            return fail(v.key, ctx(v.msg));
        }
    }
    let t0 = now_ms();
    OBS.get().clear();
    if STEP.get().0 == gaps.len() + 1 {
        settle(k as u64 / 2);
        step_clock(STEP.get().1);
    }
    if over > 0 {
        settle(k as u64 + over);
        c.send(b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
    }
    let g = c.p.recv(Some(k as u64 + 5_000));
    let t = c.p.other_closed_ms();
    if !matches!(g, Got::Eof | Got::Reset) || !t.map_or(false, |t| t >= t0 + k as u64 && t <= t0 + k as u64 + LATE) {
        return fail("closing-time", ctx(format!("last used at {}, then {:?}, closed at {:?}", t0, g, t)));
    }
    if !OBS.get().is_empty() {
        return fail("late-served", ctx(format!("a request {} ms too late was handled", over)));
    }
    settle(5);
    calm(base, 0);
    if live_threads() > base || open_streams() > 0 {
        return fail("left-behind", ctx(format!("{} threads (expected {}), {} open streams while the client keeps its end open; {}", live_threads(), base, open_streams(), describe_threads())));
    }
    // the only worker serves the next connection although this client keeps its end open
    let mut d = Cl::new();
    if let Err(v) = kept(&mut d, 0) {
        return fail("left-behind", ctx(format!("another connection after the closing: {}", v.msg)));
    }
    d.p.close();
    c.p.close();
    settle(5);
    calm(base, 0);
    if open_streams() > 0 {
        return fail("left-behind", ctx(format!("{} open streams", open_streams())));
    }
    no_panics()
}

static DELAY: Cell<u64> = Cell::new(0);
fn slow(d: &[u64], k: i64, gap: u64) -> Result<(), Verdict> {
    on_call(|c, _| {
        settle(*DELAY.get());
        c.resp_body(b"ok".to_vec());
        c.response();
    });
    let mut s = new_server(1);
    s.set_keepalive(k);
    routes(&s);
    start(&s);
    let mut c = Cl::new();
    for (i, x) in d.iter().enumerate() {
        *DELAY.get() = *x;
        if let Err(v) = kept(&mut c, 0) {
            return fail(v.key, format!("keep-alive {} ms, gap {} ms, handlers taking {:?} ms, request {}: {}", k, gap, d, i, v.msg));
        }
        if i + 1 < d.len() {
            settle(gap);
        }
    }
    let t0 = now_ms();
    let g = c.p.recv(Some(k as u64 + 5_000));
    let t = c.p.other_closed_ms();
    if !matches!(g, Got::Eof | Got::Reset) || !t.map_or(false, |t| t >= t0 + k as u64 && t <= t0 + k as u64 + LATE) {
        return fail("closing-time", format!("keep-alive {} ms, gap {} ms, handlers taking {:?} ms: last used at {}, then {:?}, closed at {:?}", k, gap, d, t0, g, t));
    }
    no_panics()
}

fn kept(c: &mut Cl, i: usize) -> Result<(), Verdict> {
    c.send(b"GET /one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
    match c.next(100_000) {
        Ok(r) if r.status == 200 => Ok(()),
        x => fail("not-served", format!("connection {}: a request within the keep-alive time is answered {:?} {:?}", i, x, panics())),
    }
}

// ------------------------------------------------------------------ P14
static GAUGE: Cell<(usize, usize)> = Cell::new((0, 0)); // in a handler now, highest

fn own(i: usize, conn: Option<&'static str>) -> Spec {
    let names = ["a", "b", "c", "k"];
    let v = ["v0", "value-1", "w2", "x3"][i];
    Spec {
        name: names[i], method: METHODS[1 + i % 3], path: "/one", version: "1.1",
        headers: vec![("Content-Type".into(), "application/x-www-form-urlencoded".into()), (format!("X-{}", i), "x".repeat(i))],
        body: format!("{}={}", names[i], v).into_bytes(), length: true, form: vec![(names[i], v.to_string())], conn, ..Spec::default()
    }
}

pub fn p14(r: &mut Run) {
    r.assume("up to 4 clients and 3 pool threads; kept-alive connections occupy a pool thread until they end");
    let b = if r.thorough { 3 } else { 2 };
    // simultaneous requests, every schedule
    for (clients, workers) in [(2usize, 1usize), (2, 2), (3, 2)] {
        for big in [false, true] {
            let bound = if clients == 3 || big { b - 1 } else { b };
            let o = Opts { bound, mask: K_ALL, steps: 400_000, ..Opts::default() };
            r.explore(&format!("isolation-{}c-{}w{}", clients, workers, if big { "-big" } else { "" }), o, move || {
                let _s = no_sched(|| {
                    if big {
                        on_call(|c, tag| {
                            let o = observe(c, tag);
                            OBS.get().push(o.clone());
                            let mut b = o.clone().into_bytes();
                            b.extend(o.as_bytes().iter().cycle().take(700 * o.len() % 5000));
                            c.resp_body(b);
                            c.response();
                        });
                        let s = new_server(workers);
                        routes(&s);
                        start(&s);
                        s
                    } else {
                        echo_server(workers, 100)
                    }
                });
                OBS.get().clear();
                let sp: Vec<Spec> = (0..clients).map(|i| own(i, None)).collect();
                let mut cs: Vec<Cl> = (0..clients).map(|i| Cl::from(0x0A000001 + i as u32, 1000)).collect();
                if big {
                    for c in &cs {
                        c.p.inp().wcap = Some(600);
                    }
                }
                for i in 0..clients {
                    cs[i].send(&sp[i].bytes());
                }
                for i in 0..clients {
                    let want = sp[i].expect();
                    match cs[i].next(3000) {
                        Ok(r) if r.status == 200 && r.body.starts_with(want.as_bytes()) && (big || r.body == want.as_bytes()) => {}
                        x => return fail("response", format!("client {}: {:?}, expected {}; {:?}", i, x, want, panics())),
                    }
                }
                no_sched(|| {
                    for c in cs.iter_mut() {
                        if let Err(e) = c.closed(3000) {
                            return fail("not-closed", e);
                        }
                        c.p.close();
                    }
                    let mut got = OBS.get().clone();
                    got.sort();
                    let mut want: Vec<String> = sp.iter().map(|s| s.expect()).collect();
                    want.sort();
                    if got != want {
                        return fail("observed", format!("handlers saw {:?}", got));
                    }
                    no_panics()?;
                    Ok(0)
                })
            });
        }
    }
    // N connections are in their handlers at the same time; the next ones get their turn
    for workers in [1usize, 2, 3] {
        for extra in [0usize, 1] {
            let o = Opts { bound: if workers == 3 { b - 1 } else { b }, mask: if workers == 1 { K_ALL } else { K_REDUCED }, steps: 400_000, ..Opts::default() };
            r.explore(&format!("together-{}w-{}more", workers, extra), o, move || {
                let _s = no_sched(|| {
                    *GAUGE.get() = (0, 0);
                    on_call(move |c, _| {
                        let g = GAUGE.get();
                        g.0 += 1;
                        g.1 = g.1.max(g.0);
                        notify_app();
                        if !c.req_have_param("late") {
                            wait_until(Some(60_000), "handler: all together", || GAUGE.get().1 >= workers);
                        }
                        GAUGE.get().0 -= 1;
                        c.resp_body(format!("{}", GAUGE.get().1 >= workers).into_bytes());
                        c.response();
                    });
                    let s = new_server(workers);
                    routes(&s);
                    start(&s);
                    s
                });
                let mut cs: Vec<Cl> = (0..workers + extra).map(|i| Cl::from(0x0A000001 + i as u32, 1000)).collect();
                for (i, c) in cs.iter().enumerate() {
                    c.send(&get(if i < workers { "/one" } else { "/one?late" }));
                }
                for (i, c) in cs.iter_mut().enumerate() {
                    match c.next(30_000) {
                        Ok(r) if r.body == b"true" => {}
                        x => return fail("not-together", format!("{} workers, client {}: {:?}; at most {} handlers at once; {}", workers, i, x, GAUGE.get().1, describe_threads())),
                    }
                    c.p.close();
                }
                if GAUGE.get().1 > workers {
                    return fail("too-many", format!("{} handlers at once on {} workers", GAUGE.get().1, workers));
                }
                no_panics()?;
                Ok(0)
            });
        }
    }
    // every interleaving of the segments of three clients, one or several requests each
    let parts = if r.thorough { 4usize } else { 3 };
    let mut orders = vec![];
    fn rec(left: &mut [usize; 3], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
        }
        for i in 0..3 {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                rec(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    rec(&mut [parts; 3], &mut vec![], &mut orders);
    for (workers, two) in [(1usize, false), (2, false), (3, false), (3, true)] {
        r.enumerate(&format!("interleaved-{}w{}", workers, if two { "-kept" } else { "" }), orders.len() as u64 * 3, 64, opts(), |lo, hi| {
            let _s = echo_server(workers, 400);
            settle(5);
            for it in lo..hi {
                at_item(it);
                let ord = &orders[it as usize / 3];
                let shift = it as usize % 3;
                OBS.get().clear();
                let mut cs: Vec<Cl> = (0..3).map(|i| Cl::from(0x0A000001 + i as u32, 1000 + (it % 60_000) as u16)).collect();
                let sp: Vec<Vec<Spec>> = (0..3)
                    .map(|i| if two { vec![own(i, Some("keep-alive")), own((i + 1) % 4, None)] } else { vec![own((i + shift) % 4, None)] })
                    .collect();
                let streams: Vec<Vec<u8>> = sp.iter().map(|l| l.iter().flat_map(|s| s.bytes()).collect()).collect();
                let mut at = [0usize; 3];
                for &i in ord {
                    let i = i as usize;
                    let n = streams[i].len();
                    let (a, b) = (n * at[i] / parts, n * (at[i] + 1) / parts);
                    at[i] += 1;
                    cs[i].send(&streams[i][a..b]);
                    settle(1);
                }
                for i in 0..3 {
                    for s in &sp[i] {
                        match cs[i].next(3000) {
                            Ok(r) if r.status == 200 && r.body == s.expect().as_bytes() => {}
                            x => return fail("response", format!("order {:?}, client {}: {:?}, expected {}; {:?}", ord, i, x, s.expect(), panics())),
                        }
                    }
                    if let Err(e) = cs[i].closed(3000) {
                        return fail("not-closed", format!("order {:?}, client {}: {}", ord, i, e));
                    }
                    cs[i].p.close();
                }
                if OBS.get().len() != if two { 6 } else { 3 } {
                    return fail("observed", format!("order {:?}: {} requests handled", ord, OBS.get().len()));
                }
            }
            no_panics()?;
            Ok(0)
        });
    }
    // many connections, larger pools
    let ns: Vec<usize> = if r.thorough { (1..=40).chain([50, 64, 65]).collect() } else { (1..=16).chain([20, 24, 32, 33, 40]).collect() };
    let ws: Vec<usize> = if r.thorough { (1..=17).collect() } else { vec![1, 2, 3, 4, 5, 8, 9, 16] };
    r.enumerate("many", (ns.len() * ws.len()) as u64 * 3, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let n = ns[it as usize / 3 / ws.len()];
            let workers = ws[it as usize / 3 % ws.len()];
            let way = it % 3;
            let what = format!("{} connections, {} workers, way {}", n, workers, way);
            *GAUGE.get() = (0, 0);
            let together = workers.min(n);
            on_call(move |c, tag| {
                let o = observe(c, tag);
                let g = GAUGE.get();
                g.0 += 1;
                g.1 = g.1.max(g.0);
                notify_app();
                wait_until(Some(60_000), "handler: all together", || GAUGE.get().1 >= together);
                if way == 2 {
                    settle(1);
                }
                GAUGE.get().0 -= 1;
                c.resp_body(o.into_bytes());
                c.response();
            });
            let mut s = new_server(workers);
            s.set_keepalive(40);
            routes(&s);
            start(&s);
            settle(5);
            let base = live_threads();
            let sp: Vec<Spec> = (0..n)
                .map(|i| {
                    let mut s = own(i % 4, if way == 1 { Some("keep-alive") } else { None });
                    s.headers[1] = (format!("X-{}", i), "x".repeat(i));
                    s
                })
                .collect();
            let mut cs: Vec<Cl> = (0..n).map(|i| Cl::from(0x0A000001 + i as u32 / 3, 1000 + i as u16)).collect();
            let rq: Vec<Vec<u8>> = sp.iter().map(|s| s.bytes()).collect();
            // all at once, or a piece of each in turn
            let pieces = [1, 1, 3][way as usize];
            for p in 0..pieces {
                for i in 0..n {
                    let m = rq[i].len();
                    cs[i].send(&rq[i][m * p / pieces..m * (p + 1) / pieces]);
                }
                if p + 1 < pieces {
                    settle(1);
                }
            }
            for i in 0..n {
                match cs[i].next(100_000) {
                    Ok(r) if r.status == 200 && r.body == sp[i].expect().as_bytes() => {}
                    x => return fail("response", format!("{}, client {}: {:?}, expected {}; {:?}; at most {} handlers at once", what, i, x, sp[i].expect(), panics(), GAUGE.get().1)),
                }
                if let Err(e) = cs[i].closed(100_000) {
                    return fail("not-closed", format!("{}, client {}: {}", what, i, e));
                }
                cs[i].p.close();
            }
            if GAUGE.get().1 != together {
                return fail("too-many", format!("{}: {} handlers at once", what, GAUGE.get().1));
            }
            settle(5);
            calm(base + together, 0);
            if live_threads() > base + together || open_streams() > 0 {
                return fail("left-behind", format!("{}: {} threads, {} before; {} open streams", what, live_threads(), base, open_streams()));
            }
            no_panics()?;
        }
        Ok(0)
    });
    // more connections than can be queued: the surplus is closed unanswered, everybody else is served
    r.enumerate("overload", 3 * 6, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let workers = 1 + (it % 3) as usize;
            let surplus = [0usize, 1, 2, 5, 20, 30][it as usize / 3];
            *GAUGE.get() = (0, 0);
            on_call(move |c, tag| {
                let o = observe(c, tag);
                if c.req_have_param("hold") {
                    GAUGE.get().0 += 1;
                    notify_app();
                    wait_until(Some(60_000), "handler: hold", || GAUGE.get().1 > 0);
                }
                c.resp_body(o.into_bytes());
                c.response();
            });
            let s = new_server(workers);
            routes(&s);
            start(&s);
            settle(5);
            let base = live_threads();
            let mut held: Vec<Cl> = (0..workers).map(|i| Cl::from(0x0A000001, 1000 + i as u16)).collect();
            for c in &held {
                c.send(&get("/one?hold"));
            }
            if !wait_until(Some(5000), "main: held", || GAUGE.get().0 >= workers) {
                return fail("not-together", format!("{} of {} held connections are served", GAUGE.get().0, workers));
            }
            let n = 100 + surplus;
            let sp: Vec<Spec> = (0..n).map(|i| own(i % 4, None)).collect();
            let mut cs: Vec<Cl> = (0..n).map(|i| Cl::from(0x0A000002 + i as u32, 2000 + i as u16)).collect();
            for (c, s) in cs.iter().zip(&sp) {
                c.send(&s.bytes());
            }
            settle(5);
            GAUGE.get().1 = 1;
            notify_app();
            let mut served = 0;
            for i in 0..n {
                match cs[i].next(20_000) {
                    Ok(r) if r.status == 200 && r.body == sp[i].expect().as_bytes() => served += 1,
                    Err(e) if e.starts_with("Eof") || e.starts_with("Reset") => {}
                    x => return fail("response", format!("{} workers, {} connections waiting, client {}: {:?}", workers, n, i, x)),
                }
                if let Err(e) = cs[i].closed(5000) {
                    return fail("not-closed", format!("client {}: {}", i, e));
                }
                cs[i].p.close();
            }
            if served < 100 {
                return fail("dropped", format!("{} workers, {} connections waiting: only {} are served", workers, n, served));
            }
            for c in held.iter_mut() {
                match c.next(5000) {
                    Ok(r) if r.status == 200 => c.p.close(),
                    x => return fail("response", format!("held connection: {:?}", x)),
                }
            }
            // afterwards everything is served again
            let mut again: Vec<Cl> = (0..40).map(|i| Cl::from(0x0A000003, 5000 + i as u16)).collect();
            for (i, c) in again.iter().enumerate() {
                c.send(&sp[i].bytes());
            }
            for (i, c) in again.iter_mut().enumerate() {
                match c.next(20_000) {
                    Ok(r) if r.status == 200 && r.body == sp[i].expect().as_bytes() => c.p.close(),
                    x => return fail("not-recovered", format!("{} workers, after {} waiting connections, client {}: {:?}", workers, n, i, x)),
                }
            }
            settle(5);
            calm(base, 0);
            if live_threads() != base || open_streams() > 0 {
                return fail("left-behind", format!("{} threads, {} before; {} open streams", live_threads(), base, open_streams()));
            }
            no_panics()?;
        }
        Ok(0)
    });
    // a long life: one connection after the other, in every way they can end; afterwards all workers still serve
    let n = if r.thorough { 6000 } else { 1200 };
    r.enumerate("long-life", 3 * 4, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let workers = [1usize, 2, 5][(it % 3) as usize];
            let way = it / 3;
            on_call(move |c, tag| {
                let o = observe(c, tag);
                if c.req_have_param("boom") {
                    panic!("handler");
                }
                if c.req_have_param("hold") {
                    GAUGE.get().0 += 1;
                    notify_app();
                    wait_until(Some(60_000), "handler: all together", || GAUGE.get().0 >= workers);
                }
                c.resp_body(o.into_bytes());
                c.response();
            });
            *GAUGE.get() = (0, 0);
            let mut s = new_server(workers);
            s.set_keepalive(40);
            routes(&s);
            start(&s);
            settle(5);
            let base = live_threads();
            for j in 0..n {
                let mut c = Cl::from(0x0A000001 + j as u32 / 7, 1000 + (j % 7) as u16);
                let sp = own(j % 4, None);
                let e = if way < 3 { [0, 1, [0, 2, 3, 4, 5, 6][j % 6]][way as usize] } else { 6 - (j * 7 / n) };
                match e {
                    0 => c.send(&sp.bytes()),
                    1 => kept(&mut c, j % 4).map_err(|v| Verdict { key: v.key, msg: format!("connection number {}: {}", j, v.msg) })?,
                    2 => c.send(&sp.bytes()[..sp.bytes().len() / 2]),
                    3 => c.send(b"GET /none HTTP/1.1\r\nHost: h\r\n\r\n"),
                    4 => c.send(b"NONE /one HTTP/1.1\r\nHost: h\r\n\r\n"),
                    5 => c.send(&get("/one?boom=1")),
                    _ => {}
                }
                if e == 0 {
                    match c.next(5_000) {
                        Ok(r) if r.status == 200 && r.body == sp.expect().as_bytes() => {}
                        x => return fail("response", format!("{} workers, way {}, connection number {}: {:?}", workers, way, j, x)),
                    }
                }
                if j % 2 == 0 || e == 6 { c.p.close() } else if j % 4 == 1 { c.p.reset() } else { c.p.shutdown_write(); settle(3); c.p.close() }
                settle(1);
                if j % 100 == 99 {
                    settle(20);
                    calm(base, 0);
                    if live_threads() != base || open_streams() > 0 {
                        return fail("left-behind", format!("{} workers, way {}, after {} connections: {} threads, {} before; {} open streams", workers, way, j + 1, live_threads(), base, open_streams()));
                    }
                }
            }
            let mut cs: Vec<Cl> = (0..workers).map(|i| Cl::from(0x0B000001, 1000 + i as u16)).collect();
            for c in &cs {
                c.send(&get("/one?hold"));
            }
            for (i, c) in cs.iter_mut().enumerate() {
                match c.next(5_000) {
                    Ok(r) if r.status == 200 => c.p.close(),
                    x => return fail("not-together", format!("way {}, after {} connections: {} of {} handlers at once; client {}: {:?}", way, n, GAUGE.get().0, workers, i, x)),
                }
            }
        }
        Ok(0)
    });
    // a pool of the configured size, no larger: held handlers are counted
    r.enumerate("pool-size", 20, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let workers = 1 + it as usize;
            *GAUGE.get() = (0, 0);
            on_call(move |c, _| {
                GAUGE.get().0 += 1;
                notify_app();
                settle(50);
                c.response();
            });
            let s = new_server(workers);
            routes(&s);
            start(&s);
            settle(5);
            let cs: Vec<Cl> = (0..workers + 5).map(|i| Cl::from(0x0A000001, 1000 + i as u16)).collect();
            for c in &cs {
                c.send(&get("/one"));
            }
            settle(25);
            if GAUGE.get().0 != workers {
                return fail("pool-size", format!("{} requests are handled at once by a server with {} pool threads", GAUGE.get().0, workers));
            }
            settle(50);
            if GAUGE.get().0 != (workers + 5).min(2 * workers) {
                return fail("pool-size", format!("{} requests of {} handled after the first {} have ended", GAUGE.get().0, workers + 5, workers));
            }
            no_panics()?;
        }
        Ok(0)
    });
    // connections beyond the pool: each way in which the ones before them end
    r.enumerate("turns", 5 * 5 * 3 * 4, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let workers = 1 + (it / 25 % 3) as usize;
            let waiting = 1 + (it / 75) as usize;
            let _s = echo_server(workers, 50);
            let ends = [(it % 5) as usize, (it / 5 % 5) as usize, (it % 5) as usize];
            let mut first: Vec<Cl> = (0..workers).map(|i| Cl::from(0x0A000001, 1000 + i as u16)).collect();
            for (i, c) in first.iter_mut().enumerate() {
                if ends[i] != 4 {
                    kept(c, i)?;
                } else {
                    c.send(b"GET /one HTTP/1.1\r\nHo");
                    settle(2);
                }
            }
            let mut next: Vec<Cl> = (0..waiting).map(|i| Cl::from(0x0A000002, 1000 + i as u16)).collect();
            for (i, c) in next.iter().enumerate() {
                c.send(&own(i % 4, None).bytes());
            }
            // nobody is waiting for a free worker while one is idle
            if let Ok(x) = next[0].next(10) {
                return fail("too-early", format!("{} workers all busy: {:?}", workers, x));
            }
            next[0].buf.clear();
            for (i, c) in first.iter_mut().enumerate() {
                match ends[i] {
                    0 => {} // idle: the keep-alive time runs out
                    1 => c.p.close(),
                    2 => c.p.reset(),
                    3 => c.send(&get("/one")), // last request
                    _ => c.p.shutdown_write(),
                }
            }
            for (i, c) in next.iter_mut().enumerate() {
                match c.next(3000) {
                    Ok(r) if r.body == own(i % 4, None).expect().as_bytes() => {}
                    x => return fail("starved", format!("{} workers, the connections before it end {:?}, waiting client {}: {:?} {:?}; {}", workers, ends, i, x, panics(), describe_threads())),
                }
                c.p.close();
            }
        }
        no_panics()?;
        Ok(0)
    });
}

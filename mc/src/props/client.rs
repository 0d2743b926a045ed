//! P23-P25: the HTTP client against scripted remotes and against the library's own server.
use super::req::*;
use super::resp::statuses;
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::{HttpClient, Response};

/// HttpClient::get; a panic in it becomes a message.
fn client_get(url: &str) -> Result<Result<Response, String>, String> {
    let u = url.to_string();
    match std::panic::catch_unwind(move || HttpClient::get(&u).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err(e) => Err(match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
        }),
    }
}

/// Name and value of a cookie with attributes.
fn nv(c: &starry::header::Cookie) -> (String, String) {
    let (a, b) = cookie_nv(c);
    (a, b.split("; ").next().unwrap_or("").to_string())
}

// ------------------------------------------------------------------ P23
/// (port, everything the client sent) per accepted connection
static REC: Cell<Vec<(u16, Vec<u8>)>> = Cell::new(vec![]);

const HOSTS: [(&str, u32); 16] = [
    ("h", 0x0a000001), ("ht", 0x0a000002), ("htt", 0x0a000003), ("http", 0x0a000004), ("https", 0x0a000005), ("httpsx", 0x0a000006), ("http.x", 0x0a000007),
    ("a", 0x0a000008), ("x-y.z", 0x0a000009), ("example.com", 0x0a00000a), ("localhost", 0x7f000001), ("127.0.0.1", 0x7f000001), ("10.1.2.3", 0x0a010203),
    ("s", 0x0a00000b), ("hh", 0x0a00000c), ("h.h", 0x0a00000d),
];
const PORTS: [u16; 9] = [80, 443, 8080, 1, 65535, 11, 111, 65536u32 as u16 + 9, 8000];

fn remotes(ports: &[u16]) {
    for (n, ip) in HOSTS {
        net().hosts.insert(n.to_string(), ip);
    }
    for &p in ports {
        let r = remote_listen(p);
        spawn_harness(move || loop {
            let c = match r.accept(None) {
                Some(c) => c,
                None => return,
            };
            let (b, _) = c.recv_all(30);
            REC.get().push((p, b));
            c.send(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok");
            c.close();
        });
    }
}

#[derive(Clone, Debug)]
struct U {
    url: String,
    host: String,
    port: u16,
    target: String,
    alt: String, // also accepted as target
    user: Option<String>,
}

/// The bytes one GET of `u` may send.
fn request_ok(b: &[u8], u: &U) -> Result<(), String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    let head = s.strip_suffix("\r\n\r\n").ok_or("does not end with an empty line")?;
    let mut l = head.split("\r\n");
    let line = l.next().unwrap_or("");
    let ok = ["HTTP/1.1", "HTTP/1.0"].iter().any(|v| line == format!("GET {} {}", u.target, v) || line == format!("GET {} {}", u.alt, v));
    if !ok {
        return Err(format!("request line {:?}, target should be {:?}", line, u.target));
    }
    let (mut hosts, mut auth) = (vec![], vec![]);
    for h in l {
        let (k, v) = h.split_once(':').ok_or(format!("header line {:?}", h))?;
        let v = v.trim();
        match k.to_ascii_lowercase().as_str() {
            "host" => hosts.push(v.to_string()),
            "authorization" => auth.push(v.to_string()),
            "content-length" if v == "0" => {}
            "content-length" | "transfer-encoding" => return Err(format!("a GET announces a body: {:?}", h)),
            "" => return Err(format!("header line {:?}", h)),
            _ => {}
        }
    }
    let def = u.port == 80 || u.port == 443;
    let full = format!("{}:{}", u.host, u.port);
    if hosts.len() != 1 || !(hosts[0] == full || (def && hosts[0] == u.host)) {
        return Err(format!("Host {:?}, expected {:?}", hosts, full));
    }
    let want: Vec<String> = u.user.iter().map(|x| format!("Basic {}", b64(x.as_bytes()))).collect();
    if auth != want {
        return Err(format!("Authorization {:?}, expected {:?}", auth, want));
    }
    Ok(())
}

fn check_get(u: &U) -> Res {
    REC.get().clear();
    net().connects.clear();
    let r = match client_get(&u.url) {
        Err(p) => return fail("panic", format!("GET {:?} panicked: {}", u.url, p)),
        Ok(r) => r,
    };
    let ip = HOSTS.iter().find(|h| h.0 == u.host).unwrap().1;
    if net().connects != vec![(ip, u.port)] {
        return fail("address", format!("GET {:?} connected to {:x?}, expected {:x?} (result {:?})", u.url, net().connects, (ip, u.port), r.map(|_| "ok")));
    }
    match r {
        Err(e) => return fail("error", format!("GET {:?} failed: {}", u.url, e)),
        Ok(mut r) => {
            let b = r.body();
            if b != b"ok" {
                return fail("body", format!("GET {:?} returned {:?}", u.url, show(&b)));
            }
        }
    }
    if REC.get().len() != 1 {
        return fail("requests", format!("GET {:?}: {} connections with requests", u.url, REC.get().len()));
    }
    let (p, b) = &REC.get()[0];
    if let Err(e) = request_ok(b, u) {
        return fail("request", format!("GET {:?} sent {:?} to port {}: {}", u.url, show(b), p, e));
    }
    Ok(0)
}

const SCHEMES: [&str; 3] = ["", "http://", "https://"];
const USERS: [&str; 6] = ["", "u:p@", "u:@", "user:p:q@", "http:pw@", "https:s@"];
const PORTSEL: [Option<u16>; 6] = [None, Some(80), Some(443), Some(8080), Some(1), Some(65535)];
const PATHS: [&str; 10] = ["", "/", "/a", "/a/b/", "/a//b", "/a:b@c", "//", "/%20", "/http://x/", "/..;/-_~.!$'()*,="];
const QUERIES: [Option<&str>; 10] =
    [None, Some(""), Some("k=v"), Some("b=1&a=2&b=3"), Some("q=/?x@y:1"), Some("k"), Some("&&"), Some("=v&k="), Some("z=1&y=2&x=3&w=4"), Some("u=http://a:b@c/d?e")];
const FRAGS: [&str; 5] = ["", "#", "#f", "#f?/#x", "#a@b:9/"];

fn build(scheme: &str, user: &str, host: &str, port: Option<u16>, path: &str, query: Option<&str>, frag: &str) -> U {
    let mut url = format!("{}{}{}", scheme, user, host);
    if let Some(p) = port {
        url += &format!(":{}", p);
    }
    url += path;
    let mut target = if path.is_empty() { "/".to_string() } else { path.to_string() };
    let mut alt = target.clone();
    if let Some(q) = query {
        url += "?";
        url += q;
        target += "?";
        target += q;
        if !q.is_empty() {
            alt = target.clone();
        }
    }
    url += frag;
    U {
        url, host: host.into(), target, alt,
        port: port.unwrap_or(if scheme == "https://" { 443 } else { 80 }),
        user: if user.is_empty() { None } else { Some(user[..user.len() - 1].to_string()) },
    }
}

/// Does `s` have the form of the statement? None: not settled by it.
fn parse_ref(s: &str) -> Option<Result<U, ()>> {
    if s.bytes().any(|b| b <= b' ' || b == 0x7f) {
        return Some(Err(()));
    }
    let (scheme, rest) = if let Some(x) = s.strip_prefix("http://") { ("http://", x) } else if let Some(x) = s.strip_prefix("https://") { ("https://", x) } else { ("", s) };
    if scheme.is_empty() && rest.contains("://") && !rest[..rest.find("://").unwrap()].contains(|c| "/?#@".contains(c)) {
        // some other scheme
        return Some(Err(()));
    }
    let end = rest.find(|c| "/?#".contains(c)).unwrap_or(rest.len());
    let (auth, loc) = rest.split_at(end);
    let (user, addr) = match auth.matches('@').count() {
        0 => ("", auth),
        1 => {
            let (u, a) = auth.split_once('@').unwrap();
            match u.split_once(':') {
                Some(("", _)) => return None,
                Some(_) => (&auth[..u.len() + 1], a),
                None => return Some(Err(())),
            }
        }
        _ => return None,
    };
    let (host, port) = match addr.split_once(':') {
        None => (addr, None),
        Some((_, "")) => return None,
        Some((h, p)) => match p.bytes().all(|b| b.is_ascii_digit()) {
            true => match p.parse::<u64>() {
                Ok(0) => return Some(Err(())),
                Ok(n) if n <= 65535 => (h, Some(n as u16)),
                _ => return Some(Err(())),
            },
            false => return Some(Err(())),
        },
    };
    if host.is_empty() {
        return Some(Err(()));
    }
    if !host.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-') {
        return None;
    }
    let (loc, frag) = match loc.find('#') {
        Some(i) => loc.split_at(i),
        None => (loc, ""),
    };
    let (path, q) = match loc.split_once('?') {
        Some((p, q)) => (p, Some(q)),
        None => (loc, None),
    };
    Some(Ok(build(scheme, user, host, port, path, q, frag)))
}

const TOK: [&str; 16] = [":", "/", "@", "?", "#", "h", "1", "http://", "https://", ".", " ", "%", "\r\n", "+", "&", "é"];

pub fn p23(r: &mut Run) {
    r.assume("https URLs are fetched without TLS (the client has none): only address and request are checked; '@' in the user information, empty user names, empty ports and host names with other characters than letters, digits, '.' and '-' are left open (no panic)");
    let nh = 13;
    let dims = [SCHEMES.len(), USERS.len(), nh, PORTSEL.len(), PATHS.len(), QUERIES.len(), FRAGS.len()];
    let n: u64 = dims.iter().map(|&d| d as u64).product();
    r.enumerate("urls", n, 2000, opts(), |lo, hi| {
        remotes(&[80, 443, 8080, 1, 65535]);
        for it in lo..hi {
            at_item(it);
            let mut x = it;
            let mut d = [0usize; 7];
            for i in 0..7 {
                d[i] = (x % dims[i] as u64) as usize;
                x /= dims[i] as u64;
            }
            let host = HOSTS[d[2]].0;
            check_get(&build(SCHEMES[d[0]], USERS[d[1]], host, PORTSEL[d[3]], PATHS[d[4]], QUERIES[d[5]], FRAGS[d[6]]))?;
        }
        Ok(0)
    });
    // queries over an alphabet: sent as they are
    const QA: [&str; 7] = ["a", "b", "=", "&", "?", "/", "%2"];
    let dep = if r.thorough { 8 } else { 6 };
    r.enumerate("query-strings", nstr(QA.len(), dep), 4000, opts(), |lo, hi| {
        remotes(&[80]);
        for it in lo..hi {
            at_item(it);
            check_get(&build("http://", "", "h", None, ["/p", ""][it as usize % 2], Some(&cat(&QA, &nth(QA.len(), it))), ""))?;
        }
        Ok(0)
    });
    // a name with several addresses, in any order: the request goes to one of them, once
    let kinds: [std::net::IpAddr; 5] = ["10.0.0.1".parse().unwrap(), "10.0.0.2".parse().unwrap(), "fd00::1".parse().unwrap(), "::1".parse().unwrap(), "::ffff:10.9.9.9".parse().unwrap()];
    r.enumerate("several-addresses", nstr(5, 4) * 3, 400, opts(), |lo, hi| {
        remotes(&[80, 8080]);
        for it in lo..hi {
            at_item(it);
            let l: Vec<std::net::IpAddr> = nth(5, it / 3).iter().map(|i| kinds[*i as usize]).collect();
            net().answers.insert("multi.test".into(), l.clone());
            let (port, u) = [(80, "http://multi.test/p?a=1"), (8080, "http://multi.test:8080/p?a=1"), (80, "multi.test/p?a=1")][it as usize % 3];
            REC.get().clear();
            net().connects.clear();
            let res = match client_get(u) {
                Err(p) => return fail("panic", format!("GET {:?}, {:?}: panicked: {}", u, l, p)),
                Ok(x) => x,
            };
            let v4: Vec<u32> = l.iter().filter_map(|a| match a { std::net::IpAddr::V4(a) => Some(u32::from(*a)), _ => None }).collect();
            let cs = net().connects.clone();
            if l.is_empty() && (res.is_ok() || !cs.is_empty()) {
                return fail("address", format!("GET {:?}: the name has no address, connected to {:x?}", u, cs));
            }
            // (an IPv6 address is recorded as 0; a name without an IPv4 address may be refused)
            if cs.iter().any(|c| c.1 != port || !(v4.contains(&c.0) || (c.0 == 0 && v4.len() < l.len()))) {
                return fail("address", format!("GET {:?}, {:?}: connected to {:x?}", u, l, cs));
            }
            let reqs = REC.get().clone();
            match res {
                Ok(mut r) => {
                    let text = reqs.first().map(|x| show(&x.1)).unwrap_or_default();
                    if r.body() != b"ok" || reqs.len() != 1 || reqs[0].0 != port || !text.starts_with("GET /p?a=1 HTTP/1.") {
                        return fail("request", format!("GET {:?}, {:?}: sent {:?}", u, l, reqs.iter().map(|x| show(&x.1)).collect::<Vec<_>>()));
                    }
                }
                Err(e) => {
                    if !v4.is_empty() || !reqs.is_empty() {
                        return fail("error", format!("GET {:?}, {:?}: failed: {} after {} requests", u, l, e, reqs.len()));
                    }
                }
            }
        }
        Ok(0)
    });
    // every port number
    r.enumerate("ports", 65536 * 3, 4000, opts(), |lo, hi| {
        let ports: Vec<u16> = (lo..hi).map(|i| (i / 3) as u16).collect();
        for (n, ip) in HOSTS {
            net().hosts.insert(n.to_string(), ip);
        }
        let _ = ports;
        net().refuse = true;
        for it in lo..hi {
            at_item(it);
            let p = (it / 3) as u16;
            let u = format!("{}h:{}/x", SCHEMES[it as usize % 3], p);
            net().connects.clear();
            let res = match client_get(&u) {
                Err(e) => return fail("panic", format!("GET {:?} panicked: {}", u, e)),
                Ok(x) => x,
            };
            let want = if p == 0 { vec![] } else { vec![(0x0a000001, p)] };
            if net().connects != want {
                return fail("address", format!("GET {:?} connected to {:x?}", u, net().connects));
            }
            if res.is_ok() {
                return fail("refused", format!("GET {:?}: connection refused but the result is a response", u));
            }
        }
        Ok(0)
    });
    let dep = if r.thorough { 6 } else { 5 };
    r.enumerate("tokens", nstr(TOK.len(), dep), 2000, opts(), |lo, hi| {
        remotes(&[80, 443, 1, 11, 111, 1111]);
        for it in lo..hi {
            at_item(it);
            let s = cat(&TOK, &nth(TOK.len(), it));
            let u = match parse_ref(&s) {
                Some(Ok(u)) if HOSTS.iter().any(|h| h.0 == u.host) && [80, 443, 1, 11, 111, 1111].contains(&u.port) => {
                    check_get(&U { url: s.clone(), ..u })?;
                    continue;
                }
                x => x,
            };
            REC.get().clear();
            net().connects.clear();
            let res = match client_get(&s) {
                Err(p) => return fail("panic", format!("GET {:?} panicked: {}", s, p)),
                Ok(x) => x,
            };
            if let Some(Err(())) = u {
                if res.is_ok() || !net().connects.is_empty() {
                    return fail("invalid-url", format!("GET {:?} is not a URL, but the client connected to {:x?} (result {:?})", s, net().connects, res.map(|_| "ok")));
                }
            }
        }
        Ok(0)
    });
    // every pair of characters at each place of the URL
    r.enumerate("characters", n_pairs(7), 4000, opts(), |lo, hi| {
        remotes(&[80, 443, 8080, 1]);
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 7);
            let cd = format!("{}{}", c, d);
            let no = |set: &str| !cd.contains(|x| set.contains(x));
            let host = HOSTS[(it % 13) as usize].0;
            let sch = SCHEMES[(it / 13 % 3) as usize];
            let u = match t {
                0 if no("?#") => build(sch, "", host, None, &format!("/{}", cd), None, ""),
                1 if no("?#") => build(sch, "", host, Some(8080), &format!("/a{}/b{}", c, d), Some("k=v"), ""),
                2 if no("#") => build(sch, "", host, None, "/p", Some(&cd), ""),
                3 if no("#") => build(sch, "", host, Some(1), "", Some(&format!("a={}&{}=b", c, d)), "#f"),
                4 => build(sch, "", host, None, "/p", Some("k=v"), &format!("#{}", cd)),
                5 if no("/?#@") && c != ":" => build(sch, &format!("{}:{}@", c, d), host, None, "/p", None, ""),
                6 if no("/?#@") => build(sch, &format!("u:a{}b{}@", c, d), host, Some(8080), "", None, "#f"),
                _ => continue,
            };
            check_get(&u)?;
        }
        Ok(0)
    });
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 9, 100, opts(), |lo, hi| {
        remotes(&[80, 443, 8080, 1]);
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 9];
            let big = "x".repeat(n);
            let u = match it % 9 {
                0 => build("http://", "", "h", None, &"/s".repeat(n), None, ""),
                1 => build("http://", "", "h", None, &format!("/{}", big), Some("k=v"), ""),
                2 => build("", "", "h", Some(8080), "/p", Some(&(0..n).map(|i| format!("k{}={}", i, n - i)).collect::<Vec<_>>().join("&")), ""),
                3 => build("", "", "h", None, "", Some(&format!("k={}", "v=".repeat(n))), "#f"),
                4 => build("https://", "", "h", None, "/p", None, &format!("#{}", big)),
                5 => build("http://", &format!("u:p{}@", big), "h", None, "/p", None, ""),
                6 => build("http://", &format!("u{}:p:q@", big), "h", Some(1), "/p", None, ""),
                7 => build("http://", "", "h", None, &"/".repeat(n), Some(&"&".repeat(n)), ""),
                _ => build("", &format!("u:{}@", ":".repeat(n)), "h", None, "", Some(&"?".repeat(n)), &"#".repeat(n)),
            };
            check_get(&u)?;
        }
        Ok(0)
    });
    // short and interrupted writes, for several requests
    let us: Vec<U> = vec![
        build("http://", "", "h", None, "/", None, ""),
        build("https://", "user:p:q@", "example.com", Some(8080), "/a/b/", Some("b=1&a=2&b=3"), "#f"),
        build("", "u:p@", "http", Some(1), "", Some("q=/?x@y:1"), ""),
    ];
    let us2 = us.clone();
    r.enumerate("short-writes", 3 * 160 * 160, 400, opts(), move |lo, hi| {
        remotes(&[80, 8080, 1]);
        for it in lo..hi {
            at_item(it);
            let (k, a, b) = ((it / 25600) as usize, (it / 160 % 160) as usize, (it % 160) as usize);
            net().dial = Some(Box::new(move |p| {
                if a == 0 {
                    p.wcap = Some(b + 1);
                } else {
                    p.wcuts = vec![a, b];
                    p.weintr = vec![b];
                }
            }));
            if let Err(v) = check_get(&us2[k]) {
                return fail(v.key, format!("{} (writes cut at {} and interrupted at {})", v.msg, a, b));
            }
        }
        Ok(0)
    });
    // a write fails: an error, and what was sent is the beginning of the request
    r.enumerate("write-faults", 3 * 160 * 3, 60, opts(), move |lo, hi| {
        remotes(&[80, 8080, 1]);
        for it in lo..hi {
            at_item(it);
            let (k, a, cap) = ((it / 480) as usize, (it / 3 % 160) as usize, (it % 3) as usize);
            net().dial = None;
            check_get(&us[k])?;
            let full = REC.get()[0].1.clone();
            net().dial = Some(Box::new(move |p| {
                p.wfail_after = Some(a);
                p.wcap = [None, Some(7), Some(1)][cap];
            }));
            REC.get().clear();
            net().connects.clear();
            let res = match client_get(&us[k].url) {
                Err(p) => return fail("panic", format!("GET {:?} panicked when writing failed after {} bytes: {}", us[k].url, a, p)),
                Ok(x) => x,
            };
            settle(100);
            if a < full.len() {
                if res.is_ok() {
                    return fail("write-error-ignored", format!("GET {:?}: writing fails after {} bytes, yet the result is a response", us[k].url, a));
                }
                if net().connects.len() != 1 {
                    return fail("address", format!("GET {:?} connected {} times", us[k].url, net().connects.len()));
                }
            }
        }
        Ok(0)
    });
}

// ------------------------------------------------------------------ P24
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Close,
    Keep,
    Reset,
    HalfClose,
}

#[derive(Clone, Default)]
struct Script {
    segs: Vec<Vec<u8>>,
    gap: u64,   // ms between segments (0: all at once)
    early: bool, // answer before reading the request
    end: Option<End>,
}
static SCRIPT: Cell<Script> = Cell::new(Script { segs: vec![], gap: 0, early: false, end: None });

fn scripted() {
    net().hosts.insert("h".into(), 0x0a000001);
    let r = remote_listen(80);
    spawn_harness(move || {
        let mut held = vec![];
        loop {
            let c = match r.accept(None) {
                Some(c) => c,
                None => return,
            };
            let s = SCRIPT.get().clone();
            if !s.early {
                let mut b = vec![];
                while !b.windows(4).any(|w| w == b"\r\n\r\n") {
                    match c.recv(Some(1000)) {
                        Got::Data(d) => b.extend(d),
                        _ => break,
                    }
                }
            }
            if s.gap == 0 {
                let v: Vec<&[u8]> = s.segs.iter().map(|x| &x[..]).collect();
                c.send_segments(&v);
            } else {
                for x in &s.segs {
                    c.send(x);
                    settle(s.gap);
                }
            }
            match s.end.unwrap_or(End::Close) {
                End::Close => c.close(),
                End::HalfClose => {
                    c.shutdown_write();
                    held.push(c)
                }
                End::Keep => held.push(c),
                End::Reset => {
                    let cc = c.c;
                    wait_until(Some(1000), "read by client", || net().conns[cc].pipe[0].chunks.is_empty());
                    c.reset()
                }
            }
        }
    });
}

#[derive(Debug, PartialEq, Clone)]
enum Want {
    Ok(Vec<u8>, Vec<(String, String)>), // body, cookies
    Err,
    Any,                                // no panic
    BodyOrErr(Vec<u8>),
}

fn fetch(s: Script, want: &Want, what: &dyn Fn() -> String) -> Res {
    *SCRIPT.get() = s;
    let t0 = now_ms();
    let r = match client_get("http://h/x") {
        Err(p) => return fail("panic", format!("{}: the client panicked: {}", what(), p)),
        Ok(r) => r,
    };
    if now_ms() - t0 > 60_000 {
        return fail("slow", format!("{}: the client returned after {} ms", what(), now_ms() - t0));
    }
    match (want, r) {
        (Want::Any, _) => Ok(0),
        (Want::Err, Ok(mut r)) => fail("accepted", format!("{}: expected an error, got a response with body {:?}", what(), show(&r.body()))),
        (Want::Err, Err(_)) | (Want::BodyOrErr(_), Err(_)) => Ok(0),
        (Want::Ok(..), Err(e)) => fail("error", format!("{}: the client failed: {}", what(), e)),
        (Want::BodyOrErr(b), Ok(mut r)) => {
            let g = r.body();
            if g != *b {
                return fail("body", format!("{}: body {:?}, expected {:?} or an error", what(), show(&g), show(b)));
            }
            Ok(0)
        }
        (Want::Ok(b, ck), Ok(mut r)) => {
            let cs = match r.read_set_cookies() {
                Ok(v) => v.iter().map(nv).collect::<Vec<_>>(),
                Err(e) if ck.is_empty() => {
                    let _ = e;
                    vec![]
                }
                Err(e) => return fail("cookies", format!("{}: cookies {}", what(), e)),
            };
            if cs != *ck {
                return fail("cookies", format!("{}: cookies {:?}, expected {:?}", what(), cs, ck));
            }
            let g = r.body();
            if g != *b {
                return fail("body", format!("{}: body {:?}, expected {:?}", what(), show(&g), show(b)));
            }
            Ok(0)
        }
    }
}

/// Header block (without Content-Length), spelling of Content-Length, cookies
const HEADS: [(&str, &str, &[(&str, &str)]); 9] = [
    ("", "Content-Length: ", &[]),
    ("Server: x y: z\r\nX-Empty:\r\n", "content-length: ", &[]),
    ("Set-Cookie: a=1\r\n", "CONTENT-LENGTH: ", &[("a", "1")]),
    ("set-cookie: a=1; Path=/\r\nX: 1\r\nSET-COOKIE: b=x=y; HttpOnly\r\n", "Content-Length:", &[("a", "1"), ("b", "x=y")]),
    ("Set-Cookie:a=1\r\nSet-Cookie:b=2\r\n", "content-Length:   ", &[("a", "1"), ("b", "2")]),
    ("Connection: close\r\nContent-Type: text/plain; charset=utf-8\r\n", "Content-Length: ", &[]),
    ("Connection: keep-alive\r\nX-A: 1\r\nX-A: 2\r\n", "Content-Length: ", &[]),
    ("Date: Wed, 08 Dec 2021 10:37:54 GMT\r\nX-U: \u{e9}\u{4e2d}\r\n", "Content-Length: ", &[]),
    ("X-Content-Length: 3\r\nContent-Length-X: 4\r\nCookie: c=3\r\n", "Content-Length: ", &[]),
];

fn bodiless(code: u16) -> bool {
    code < 200 || code == 204 || code == 304
}

#[derive(Clone)]
struct Shape {
    ver: &'static str,
    code: u16,
    phrase: String,
    head: usize,
    body: Vec<u8>,
    length: bool,
    first: bool, // Content-Length before the other headers
}

impl Shape {
    fn head_bytes(&self) -> Vec<u8> {
        let (h, cl, _) = HEADS[self.head];
        let c = if self.length { format!("{}{}\r\n", cl, self.body.len()) } else { String::new() };
        format!("{} {}{}\r\n{}{}\r\n", self.ver, self.code, self.phrase, if self.first { format!("{}{}", c, h) } else { format!("{}{}", h, c) }, "").into_bytes()
    }
    fn want(&self) -> Want {
        Want::Ok(self.body.clone(), HEADS[self.head].2.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    }
}

fn segs_of(b: &[u8], how: usize, head: usize) -> Vec<Vec<u8>> {
    match how {
        0 => vec![b.to_vec()],
        1 => b.iter().map(|x| vec![*x]).collect(),
        2 => vec![b[..head].to_vec(), b[head..].to_vec()],
        k => b.chunks(k).map(|x| x.to_vec()).collect(),
    }
}

fn shapes() -> Vec<Shape> {
    let d = Shape { ver: "HTTP/1.1", code: 200, phrase: " OK".into(), head: 0, body: b"hi\r\n\0x".to_vec(), length: true, first: true };
    vec![
        d.clone(),
        Shape { length: false, ..d.clone() },
        Shape { head: 3, phrase: " Not Found".into(), code: 404, ..d.clone() },
        Shape { head: 4, ver: "HTTP/1.0", length: false, body: b"\r\n\r\n".to_vec(), ..d.clone() },
        Shape { body: vec![], head: 2, first: false, phrase: "".into(), ..d.clone() },
        Shape { code: 500, phrase: " Internal Server Error".into(), body: b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx".to_vec(), ..d.clone() },
    ]
}

pub fn p24(r: &mut Run) {
    r.assume("responses without a transfer coding; statuses that never have a body (1xx, 204, 304) are sent without one; header lines end in CRLF and are not folded; the client is HttpClient::get, which does not reuse connections");
    let phr: [&str; 7] = ["STD", "", " ", " x", " Two words", " \u{e9}: t=1; , \"q\"", " Three  spaced words "];
    let bodies: [&[u8]; 6] = [b"", b"x", b"\r\n\r\n", b"\0\xff\n\r", b"HTTP/1.1 200 OK\r\n\r\n", b"0\r\n\r\n"];
    let st: Vec<(u16, &'static str)> = statuses().iter().map(|s| (s.0, s.2)).collect();
    let dims = [2u64, 2, bodies.len() as u64, 4, HEADS.len() as u64, phr.len() as u64, 2, st.len() as u64];
    r.enumerate("shapes", dims.iter().product(), 4000, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let mut x = it;
            let d: Vec<usize> = dims.iter().map(|&k| {
                let v = (x % k) as usize;
                x /= k;
                v
            }).collect();
            let (code, std_phrase) = st[d[7]];
            if bodiless(code) && d[2] > 0 {
                continue;
            }
            let s = Shape {
                ver: ["HTTP/1.1", "HTTP/1.0"][d[6]], code, head: d[4], body: bodies[d[2]].to_vec(), length: d[0] == 0, first: d[1] == 0,
                phrase: if d[5] == 0 { format!(" {}", std_phrase) } else { phr[d[5]].to_string() },
            };
            let h = s.head_bytes();
            let all = [&h[..], &s.body].concat();
            // deliveries: whole, byte-wise, head and body apart, and for stated lengths a server that does not close
            let end = if d[3] == 3 { End::HalfClose } else if s.length && (it / 7) % 2 == 0 { End::Keep } else { End::Close };
            let sc = Script { segs: segs_of(&all, [0, 1, 2, 2][d[3]], h.len()), gap: if d[3] == 3 { 1 } else { 0 }, early: d[3] == 3, end: Some(end) };
            fetch(sc, &s.want(), &|| format!("response {:?} (delivery {}, then {:?})", show(&all), d[3], end))?;
        }
        Ok(0)
    });
    const BA: [&[u8]; 5] = [b"a", b"\r", b"\n", b"\0", b"\xff"];
    let dep = if r.thorough { 8 } else { 6 };
    r.enumerate("bodies", nstr(5, dep) * 4, 4000, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let s = Shape { ver: "HTTP/1.1", code: 200, phrase: " OK".into(), head: 0, first: true, length: it & 1 == 0, body: catb(&BA, &nth(5, it / 4)) };
            let h = s.head_bytes();
            let all = [&h[..], &s.body].concat();
            let end = if s.length { End::Keep } else { End::Close };
            let how = (it as usize >> 1) & 1;
            fetch(Script { segs: segs_of(&all, how, h.len()), end: Some(end), ..Default::default() }, &s.want(), &|| format!("response {:?} (delivery {})", show(&all), how))?;
        }
        Ok(0)
    });
    // every pair of cuts
    let sh = shapes();
    let sh2 = sh.clone();
    r.enumerate("two-cuts", 6 * 130 * 130, 2000, opts(), move |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let s = &sh2[(it / 16900) as usize];
            let (a, b) = ((it / 130 % 130) as usize, (it % 130) as usize);
            let all = [s.head_bytes(), s.body.clone()].concat();
            if a > b || b > all.len() {
                continue;
            }
            let segs = vec![all[..a].to_vec(), all[a..b].to_vec(), all[b..].to_vec()];
            let end = if s.length { [End::Keep, End::Close][it as usize % 2] } else { End::Close };
            fetch(Script { segs, gap: it % 2, end: Some(end), early: false }, &s.want(), &|| format!("response {:?} cut at {} and {}", show(&all), a, b))?;
        }
        Ok(0)
    });
    // head and body lengths around the sizes of reads
    let hs: Vec<usize> = (0..60).chain(900..1100).chain(1980..2080).chain([4000, 4030, 4096, 8192]).collect();
    let bs: [usize; 11] = [0, 1, 2, 1023, 1024, 1025, 2047, 2048, 4096, 10000, 70000];
    let (nh, hs2) = (hs.len() as u64, hs.clone());
    r.enumerate("sizes", nh * 11 * 2 * 3, 300, opts(), move |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let pad = hs2[(it % nh) as usize];
            let n = bs[(it / nh % 11) as usize];
            let length = it / nh / 11 % 2 == 0;
            let how = [0, 2, 1460][(it / nh / 22) as usize];
            let body = super::resp::big(n, it as u32);
            let head = format!("HTTP/1.1 200 OK\r\nX-Pad: {}\r\nSet-Cookie: c=v\r\n{}\r\n", "p".repeat(pad), if length { format!("Content-Length: {}\r\n", n) } else { String::new() }).into_bytes();
            let all = [&head[..], &body].concat();
            let end = if length { End::Keep } else { End::Close };
            fetch(Script { segs: segs_of(&all, how, head.len()), end: Some(end), ..Default::default() }, &Want::Ok(body, vec![("c".into(), "v".into())]),
                &|| format!("head padded by {}, body of {} bytes, length stated: {}, delivery {}", pad, n, length, how))?;
        }
        Ok(0)
    });
    // bodies of every size class, in segments of several sizes
    let bs = super::resp::body_sizes(r.thorough);
    r.enumerate("body-sizes", bs.len() as u64 * 2 * 5, 40, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let n = bs[it as usize / 10];
            let length = it % 2 == 0;
            let how = [0, 2, 536, 1460, 65_000][(it / 2 % 5) as usize];
            let body = super::resp::big(n, it as u32);
            let head = format!("HTTP/1.1 200 OK\r\nSet-Cookie: c=v\r\n{}\r\n", if length { format!("Content-Length: {}\r\n", n) } else { String::new() }).into_bytes();
            let all = [&head[..], &body].concat();
            let end = if length { End::Keep } else { End::Close };
            fetch(Script { segs: segs_of(&all, how, head.len()), end: Some(end), ..Default::default() }, &Want::Ok(body, vec![("c".into(), "v".into())]),
                &|| format!("body of {} bytes, length stated: {}, delivery {}", n, length, how))?;
        }
        Ok(0)
    });
    // any number of headers and cookies, names and values of any length
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 7, 50, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 7];
            let mut ck: Vec<(String, String)> = vec![];
            let lines: String = match it % 7 {
                0 => (0..n).map(|i| format!("X-{}: v{}\r\n", i, n - i)).collect(),
                1 => {
                    ck = (0..n).map(|i| (format!("c{}", i), format!("v{}", n - i))).collect();
                    ck.iter().enumerate().map(|(i, (k, v))| format!("{}: {}={}{}\r\n", ["Set-Cookie", "set-cookie"][i % 2], k, v, ["", "; Path=/"][i % 2])).collect()
                }
                2 => (0..n).map(|_| "X-Same: v\r\n").collect(),
                3 => format!("X-{}: v\r\n", "n".repeat(n)),
                4 => format!("X-V: {}\r\n", "v: ".repeat(n)),
                5 => {
                    ck = vec![("a".into(), "v".repeat(n)), ("b".into(), "=".repeat(n))];
                    ck.iter().map(|(k, v)| format!("Set-Cookie: {}={}; HttpOnly\r\n", k, v)).collect()
                }
                _ => {
                    ck = vec![(format!("n{}", "m".repeat(n)), "v".into())];
                    format!("Set-Cookie:{}{}=v{}\r\n", " ".repeat(n), ck[0].0, "; Secure".repeat(n % 7))
                }
            };
            let stated = n % 2 == 0;
            let all = format!("HTTP/1.1 200 OK\r\n{}{}\r\nbody", lines, if stated { "Content-Length: 4\r\n" } else { "" }).into_bytes();
            let how = [0, 1460, 100][n % 3];
            fetch(Script { segs: segs_of(&all, how, 0), end: Some(if stated { End::Keep } else { End::Close }), ..Default::default() }, &Want::Ok(b"body".to_vec(), ck),
                &|| format!("response with {} header lines of kind {}", n, it % 7))?;
        }
        Ok(0)
    });
    // every pair of characters in header lines, cookies, phrase and body
    r.enumerate("characters", n_pairs(6), 4000, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 6);
            let (mut phrase, mut line, mut ck, mut body) = ("OK".to_string(), String::new(), vec![], b"body".to_vec());
            match t {
                0 => phrase = format!("{}{}", c, d),
                1 => line = format!("X-A: {}{}\r\n", c, d),
                2 if super::resp::token(&c) && super::resp::token(&d) => line = format!("{}x{}: v\r\n", c, d),
                3 if !"\",;\\".contains(&c) && !"\",;\\".contains(&d) && c.is_ascii() && d.is_ascii() => {
                    ck.push(("n".to_string(), format!("{}{}", c, d)));
                    line = format!("Set-Cookie: n={}{}; Path=/x\r\n", c, d);
                }
                4 if super::resp::token(&c) && super::resp::token(&d) => {
                    ck.push((format!("{}{}", c, d), "v".to_string()));
                    line = format!("Set-Cookie: {}{}=v\r\n", c, d);
                }
                5 => body = format!("{}\r\n{}", c, d).into_bytes(),
                _ => continue,
            }
            let stated = it % 2 == 0;
            let mut all = format!("HTTP/1.1 200 {}\r\nSet-Cookie: first=1\r\n{}{}\r\n", phrase, line, if stated { format!("Content-Length: {}\r\n", body.len()) } else { String::new() }).into_bytes();
            all.extend(&body);
            ck.insert(0, ("first".to_string(), "1".to_string()));
            fetch(Script { segs: vec![all.clone()], end: Some(if stated { End::Keep } else { End::Close }), ..Default::default() }, &Want::Ok(body, ck), &|| format!("response {:?}", show(&all)))?;
        }
        Ok(0)
    });
    // blanks around header values
    const BL: [&str; 9] = ["", " ", "   ", "\t", " \t ", "\t\t", "          ", "\t ", " \t"];
    r.enumerate("blanks", 81 * 4 * 2, 100, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let (a, b) = (BL[(it % 9) as usize], BL[(it / 9 % 9) as usize]);
            let early = it / 324 == 1;
            let (line, ck) = match it / 81 % 4 {
                0 => (format!("Content-Length:{}4{}\r\nSet-Cookie: k=v\r\n", a, b), true),
                1 => (format!("Content-Length: 4\r\nSet-Cookie:{}k=v{}\r\n", a, b), true),
                2 => (format!("Content-Length: 4\r\nX-A:{}v w{}\r\nSet-Cookie: k=v\r\n", a, b), true),
                _ => (format!("Content-Length:{}4{}\r\nX-A:{}{}\r\n", a, b, a, b), false),
            };
            let all = format!("HTTP/1.1 200 OK\r\n{}\r\nbodysurplus", line).into_bytes();
            let ck = if ck { vec![("k".to_string(), "v".to_string())] } else { vec![] };
            fetch(Script { segs: vec![all.clone()], early, end: Some(End::Keep), ..Default::default() }, &Want::Ok(b"body".to_vec(), ck), &|| format!("response {:?}", show(&all)))?;
        }
        Ok(0)
    });
    // cookies arrive with their attributes; one that cannot be read costs nothing but itself
    r.enumerate("cookie-attributes", 3 * 3 * 7 * 8 * 4 * 6 * 4, 1000, opts(), |lo, hi| {
        scripted();
        const PATHS: [Option<&str>; 3] = [None, Some("/"), Some("/a=b/c d")];
        const DOMAINS: [Option<&str>; 3] = [None, Some(".example.com"), Some("h")];
        // as sent, and whether the client can read it
        const DATES: [Option<(&str, bool)>; 7] = [None, Some(("Wed, 08 Dec 2021 10:37:54 GMT", true)), Some(("Thu, 01 Jan 1970 00:00:00 GMT", true)),
            Some(("Wed, 08-Dec-2021 10:37:54 GMT", false)), Some(("Wed Dec  8 10:37:54 2021", false)), Some(("0", false)), Some(("Wed, 32 Dec 2021 10:37:54 GMT", false))];
        const AGES: [Option<(&str, bool)>; 8] = [None, Some(("0", true)), Some(("-1", true)), Some(("3600", true)), Some(("x", false)), Some(("1.5", false)), Some(("99999999999999999999", false)), Some(("", false))];
        const SITES: [Option<(&str, Option<&str>)>; 6] = [None, Some(("Lax", Some("Lax"))), Some(("strict", Some("Strict"))), Some(("NONE", Some("None"))), Some(("other", None)), Some(("", None))];
        for it in lo..hi {
            at_item(it);
            let mut x = it;
            let mut dig = |n: u64| {
                let d = x % n;
                x /= n;
                d as usize
            };
            let (path, domain, date, age, flags, site, style) = (PATHS[dig(3)], DOMAINS[dig(3)], DATES[dig(7)], AGES[dig(8)], dig(4), SITES[dig(6)], dig(4));
            let mut sent: Vec<String> = vec![];
            let mut want: Vec<String> = vec!["n=v".into()];
            if let Some(p) = path {
                sent.push(format!("Path={}", p));
                want.push(format!("Path={}", p));
            }
            if let Some(d) = domain {
                sent.push(format!("Domain={}", d));
                want.push(format!("Domain={}", d));
            }
            if let Some((t, ok)) = date {
                sent.push(format!("Expires={}", t));
                if ok {
                    want.push(format!("Expires={}", t));
                }
            }
            if let Some((t, ok)) = age {
                sent.push(format!("Max-Age={}", t));
                if ok {
                    want.push(format!("Max-Age={}", t));
                }
            }
            for (b, t) in [(1, "Secure"), (2, "HttpOnly")] {
                if flags & b != 0 {
                    sent.push(t.into());
                    want.push(t.into());
                }
            }
            if let Some((t, w)) = site {
                sent.push(format!("SameSite={}", t));
                if let Some(w) = w {
                    want.push(format!("SameSite={}", w));
                }
            }
            match style {
                1 => sent.reverse(),
                2 => sent = sent.iter().map(|a| a.split_once('=').map(|(k, v)| format!("{}={}", k.to_lowercase(), v)).unwrap_or(a.to_uppercase())).collect(),
                3 => sent.push("Priority=High".into()),
                _ => {}
            }
            let sep = if style == 1 { ";" } else { "; " };
            sent.insert(0, "n=v".into());
            let all = format!("HTTP/1.1 200 OK\r\nSet-Cookie: a=1\r\nSet-Cookie: {}\r\nSet-Cookie: z=2; Path=/z\r\nContent-Length: 4\r\n\r\nbody", sent.join(sep)).into_bytes();
            *SCRIPT.get() = Script { segs: vec![all.clone()], end: Some(End::Keep), ..Default::default() };
            let r = match client_get("http://h/x") {
                Err(p) => return fail("panic", format!("response {:?}: the client panicked: {}", show(&all), p)),
                Ok(Err(e)) => return fail("error", format!("response {:?}: the client failed: {}", show(&all), e)),
                Ok(Ok(r)) => r,
            };
            let got: Vec<Vec<String>> = match r.read_set_cookies() {
                Ok(v) => v.iter().map(|c| {
                    let mut l: Vec<String> = c.to_string().split("; ").map(|x| x.to_string()).collect();
                    l[1..].sort();
                    l
                }).collect(),
                Err(e) => return fail("cookies", format!("response {:?}: cookies unreadable: {}", show(&all), e)),
            };
            want[1..].sort();
            let want = vec![vec!["a=1".to_string()], want, vec!["z=2".to_string(), "Path=/z".to_string()]];
            if got != want {
                return fail("cookies", format!("response {:?}: cookies {:?}, expected {:?}", show(&all), got, want));
            }
        }
        Ok(0)
    });
    // the connection ends after every prefix
    let sh3 = sh.clone();
    r.enumerate("ends", 6 * 130 * 3 * 4, 500, opts(), move |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let s = &sh3[(it / 1560) as usize];
            let k = (it / 12 % 130) as usize;
            let end = [End::Close, End::HalfClose, End::Reset][(it / 4 % 3) as usize];
            let how = (it % 4) as usize;
            let head = s.head_bytes();
            let all = [&head[..], &s.body].concat();
            if k > all.len() {
                continue;
            }
            let cut = &all[..k];
            let want = if k < head.len() {
                Want::Err
            } else if s.length {
                if k == all.len() { s.want() } else { Want::Err }
            } else if end == End::Reset {
                Want::Err
            } else {
                Want::Ok(s.body[..k - head.len()].to_vec(), HEADS[s.head].2.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
            };
            fetch(Script { segs: segs_of(cut, how.min(1), 0), gap: if how == 2 { 3 } else { 0 }, early: how == 3, end: Some(end) }, &want, &|| format!("{:?} of response {:?}, then {:?}", show(cut), show(&all), end))?;
        }
        Ok(0)
    });
    // no connection, or one that ends at once; a healthy request afterwards still works
    r.enumerate("no-connection", 8, 8, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            net().refuse = it == 0;
            let (url, sc) = match it {
                0 => ("http://h/", Script::default()),
                1 => ("http://nowhere/", Script::default()),
                2 => ("http://h:81/", Script::default()),
                3 => ("http://h/", Script { early: true, end: Some(End::Close), ..Default::default() }),
                4 => ("http://h/", Script { early: true, end: Some(End::Reset), ..Default::default() }),
                5 => ("http://h/", Script { end: Some(End::Close), ..Default::default() }),
                6 => ("http://h/", Script { end: Some(End::Reset), ..Default::default() }),
                _ => ("http://h/", Script { end: Some(End::HalfClose), ..Default::default() }),
            };
            *SCRIPT.get() = sc;
            match client_get(url) {
                Err(p) => return fail("panic", format!("case {}: the client panicked: {}", it, p)),
                Ok(Ok(_)) => return fail("accepted", format!("case {}: no response was sent, but the client returned one", it)),
                Ok(Err(_)) => {}
            }
            net().refuse = false;
            let ok = Script { segs: vec![b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\ny".to_vec()], end: Some(End::Keep), ..Default::default() };
            fetch(ok, &Want::Ok(b"y".to_vec(), vec![]), &|| format!("a request after case {}", it))?;
        }
        Ok(0)
    });
    // malformed responses
    const MT: [&[u8]; 16] = [
        b"HTTP/1.1", b"HTTP/9.9", b" ", b"200", b"2000", b"999", b"-1", b"\r\n", b"\n", b":", b"Content-Length: ", b"5", b"99999999999999999999", b"\xff", b"\r", b"Set-Cookie: =;",
    ];
    let dep = if r.thorough { 5 } else { 4 };
    r.enumerate("malformed", nstr(16, dep) * 2, 2000, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let mut b = if it & 1 == 1 { b"HTTP/1.1 200 OK\r\n".to_vec() } else { vec![] };
            b.extend(catb(&MT, &nth(16, it / 2)));
            if it & 1 == 1 {
                b.extend(b"\r\n\r\nhello");
            }
            // a head that never ends is no response
            let want = if b.windows(4).any(|w| w == b"\r\n\r\n" ) || b.windows(2).any(|w| w == b"\n\n") || b.windows(3).any(|w| w == b"\n\r\n") { Want::Any } else { Want::Err };
            fetch(Script { segs: vec![b.clone()], end: Some(End::Close), ..Default::default() }, &want, &|| format!("response {:?}", show(&b)))?;
        }
        Ok(0)
    });
    const CL: [&str; 19] = [
        "", " ", "-1", "-2", "x", "+5", "5 ", "\t5", "0x5", "5x", "x5", "6", "500", "4294967301", "99999999999999999999", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    ];
    r.enumerate("content-lengths", 19 * 3, 57, opts(), |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let c = CL[(it / 3) as usize];
            let b = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\nhello", c).into_bytes();
            let more = match c.parse::<u128>() {
                Ok(n) => n > 5,
                Err(_) => false,
            };
            let want = if more { Want::Err } else { Want::BodyOrErr(b"hello".to_vec()) };
            let how = (it % 3) as usize;
            fetch(Script { segs: segs_of(&b, how, 30), end: Some(End::Close), ..Default::default() }, &want, &|| format!("Content-Length {:?} with 5 bytes", c))?;
        }
        Ok(0)
    });
    // bytes after a body of stated length belong to something else
    let sh5 = sh.clone();
    r.enumerate("surplus", 6 * 2 * 4 * 130, 500, opts(), move |lo, hi| {
        scripted();
        for it in lo..hi {
            at_item(it);
            let s = Shape { length: true, ..sh5[(it % 6) as usize].clone() };
            let end = [End::Close, End::Keep][(it / 6 % 2) as usize];
            let extra: &[u8] = [&b"x"[..], b"\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\ny", b"\0\0\0\0\0\0\0\0\0\0\0\0"][(it / 12 % 4) as usize];
            let h = s.head_bytes();
            let all = [&h[..], &s.body, extra].concat();
            let k = (it / 48) as usize;
            if k > all.len() {
                continue;
            }
            fetch(Script { segs: vec![all[..k].to_vec(), all[k..].to_vec()], end: Some(end), ..Default::default() }, &s.want(), &|| format!("response {:?}, of which the last {} bytes are surplus, cut at {}, then {:?}", show(&all), extra.len(), k, end))?;
        }
        Ok(0)
    });
    // unknown statuses and versions: an error or the response, never something else
    r.enumerate("status-line", 1100 * 3, 1100, opts(), |lo, hi| {
        scripted();
        let st = statuses();
        for it in lo..hi {
            at_item(it);
            let code = (it % 1100) as u16;
            let v = ["HTTP/1.1", "HTTP/1.0", "HTTP/3.7"][(it / 1100) as usize];
            let b = format!("{} {} Z\r\nContent-Length: 5\r\n\r\nhello", v, if code < 1000 { format!("{:03}", code) } else { code.to_string() }).into_bytes();
            let known = st.iter().any(|s| s.0 == code) && it < 2200;
            let want = if known && !bodiless(code) { Want::Ok(b"hello".to_vec(), vec![]) } else if it >= 2200 { Want::Err } else { Want::BodyOrErr(b"hello".to_vec()) };
            if bodiless(code) {
                continue;
            }
            fetch(Script { segs: vec![b.clone()], end: Some(End::Close), ..Default::default() }, &want, &|| format!("response {:?}", show(&b)))?;
        }
        Ok(0)
    });
    // interleavings of the remote's and the client's steps
    let sh4 = shapes();
    for (i, s) in sh4.into_iter().enumerate() {
        for (j, end) in [End::Close, End::Reset, End::Keep].into_iter().enumerate() {
            if end == End::Keep && !s.length {
                continue;
            }
            for early in [false, true] {
                let s = s.clone();
                r.explore(&format!("interleavings-{}-{}-{}", i, j, early as u8), Opts { bound: if r.thorough { 7 } else { 5 }, mask: K_ALL, secs: 60, ..Opts::default() }, move || {
                    scripted();
                    let h = s.head_bytes();
                    let all = [&h[..], &s.body].concat();
                    let m = h.len() / 2;
                    let segs = vec![all[..m].to_vec(), all[m..h.len()].to_vec(), all[h.len()..].to_vec()];
                    let want = if end == End::Reset { if s.length && !early { s.want() } else { Want::Any } } else { s.want() };
                    fetch(Script { segs, gap: 1, early, end: Some(end) }, &want, &|| format!("response {:?} in three segments, then {:?}", show(&all), end))
                });
            }
        }
    }
}

// ------------------------------------------------------------------ P25
use super::resp::{apply, bodies, Op};

static CALLS: Cell<Vec<(String, String, Vec<(String, String)>)>> = Cell::new(vec![]);
static OPSOF: Cell<Vec<Vec<Op>>> = Cell::new(vec![]);

const ROUTES: [&str; 6] = ["/", "/one", "/:x", "/:x/:y", "/files/*", "/a/b/c"];

fn own_server(pool: usize, ka: i64) {
    net().hosts.insert("srv".into(), 0x7f000001);
    on_call(|c, t| {
        if let Tag::H(h) = t {
            let q: Vec<(String, String)> = ["k", "b", "n", "empty"].iter().filter(|k| c.req_have_param(**k)).map(|k| (k.to_string(), c.req_param(*k).unwrap_or_default())).collect();
            let n: usize = c.req_param("n").unwrap_or_default().parse().unwrap_or(0);
            CALLS.get().push((format!("{}", h), c.req_path(), q));
            for o in OPSOF.get()[n].clone() {
                apply(c, o);
            }
            c.response();
        }
    });
    let mut s = new_server(pool);
    s.set_keepalive(ka);
    let g = s.router("");
    for (i, p) in ROUTES.iter().enumerate() {
        g.get(p, HS[i]);
    }
    start(&s);
}

/// (path, route)
const TARGETS: [(&str, usize); 8] = [("", 0), ("/", 0), ("/one", 1), ("/two", 2), ("/one/x", 3), ("/x/y-_~", 3), ("/a/b/c", 5), ("/100%25", 2)];
const QS: [(&str, &[(&str, &str)]); 7] =
    [("", &[]), ("k=v", &[("k", "v")]), ("k=1&b=2", &[("k", "1"), ("b", "2")]), ("b=x=y&k", &[("k", ""), ("b", "x=y")]), ("b=/?:@&empty=", &[("b", "/?:@"), ("empty", "")]), ("k=%20&&b=2", &[("k", "%20"), ("b", "2")]), ("z=9", &[])];

fn plan_ops() -> Vec<(Vec<Op>, usize)> {
    // (what the handler does, index of the body)
    let mut v = vec![];
    for b in 0..bodies().len() as u8 {
        v.push((vec![Op::B(b)], b as usize));
        v.push((vec![Op::Ck(0), Op::Bs(b), Op::St(404)], b as usize));
        v.push((vec![Op::V10, Op::Ck(1), Op::Ck(0), Op::Add("X-A", "b: c"), Op::B(b), Op::SetS("X-C", "")], b as usize));
    }
    for (code, _, _) in statuses() {
        if !bodiless(code) {
            v.push((vec![Op::St(code), Op::BT(3, 1)], 3));
        } else {
            v.push((vec![Op::St(code)], 0));
        }
    }
    v
}

fn cookies_of(ops: &[Op]) -> Vec<String> {
    ops.iter().filter_map(|o| match o {
        Op::Ck(i) => Some(super::resp::ck_text(*i)),
        _ => None,
    }).collect()
}

fn p25_get(k: usize, path: &str, route: usize, q: &(&str, &[(&str, &str)]), user: &str, ops: &(Vec<Op>, usize), frag: &str) -> Res {
    let query = if q.0.is_empty() { format!("n={}", k) } else { format!("{}&n={}", q.0, k) };
    let url = format!("http://{}srv:{}{}?{}{}", user, PORT, path, query, frag);
    let mut r = match client_get(&url) {
        Err(p) => return fail("panic", format!("GET {:?} panicked: {}", url, p)),
        Ok(Err(e)) => return fail("error", format!("GET {:?} failed: {}; the handler does {:?}", url, e, ops.0)),
        Ok(Ok(r)) => r,
    };
    let want = &bodies()[ops.1];
    let got = r.body();
    if got != *want {
        return fail("body", format!("GET {:?}: body {:?}, the handler wrote {:?} ({:?})", url, show(&got), show(want), ops.0));
    }
    let cs: Vec<String> = match r.read_set_cookies() {
        Ok(v) => v.iter().map(|c| { let (a, b) = nv(c); format!("{}={}", a, b) }).collect(),
        Err(e) => return fail("cookies", format!("GET {:?}: {}", url, e)),
    };
    if cs != cookies_of(&ops.0) {
        return fail("cookies", format!("GET {:?}: cookies {:?}, the handler set {:?}", url, cs, cookies_of(&ops.0)));
    }
    // the handler's view
    let mine: Vec<_> = CALLS.get().iter().filter(|c| c.2.iter().any(|x| x.0 == "n" && x.1 == k.to_string())).cloned().collect();
    let mut wq: Vec<(String, String)> = q.1.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    wq.push(("n".into(), k.to_string()));
    if mine.len() != 1 {
        return fail("calls", format!("GET {:?}: {} handler invocations", url, mine.len()));
    }
    let c = &mine[0];
    let mut gq = c.2.clone();
    gq.sort();
    wq.sort();
    let wp = if path.is_empty() { "/" } else { path };
    if c.0 != route.to_string() || c.1 != wp || gq != wq {
        return fail("request", format!("GET {:?}: the handler saw {:?}, expected route {} path {:?} query {:?}", url, c, route, wp, wq));
    }
    Ok(0)
}

pub fn p25(r: &mut Run) {
    r.assume("uncompressed responses; statuses that never have a body are sent without one; the handler names its request by a query parameter");
    let plans = plan_ops();
    let np = plans.len() as u64;
    let n = np * TARGETS.len() as u64 * QS.len() as u64 * 3;
    r.enumerate("targets-and-responses", n, 300, opts(), |lo, hi| {
        own_server(2, 5000);
        for it in lo..hi {
            at_item(it);
            let plan = plans[(it % np) as usize].clone();
            let x = it / np;
            let (path, route) = TARGETS[(x % TARGETS.len() as u64) as usize];
            let x = x / TARGETS.len() as u64;
            let q = &QS[(x % QS.len() as u64) as usize];
            let (user, frag) = [("", ""), ("u:p@", "#f"), ("", "#?/")][(x / QS.len() as u64) as usize];
            CALLS.get().clear();
            *OPSOF.get() = vec![plan.0.clone()];
            p25_get(0, path, route, q, user, &plan, frag)?;
            no_panics()?;
        }
        Ok(0)
    });
    // short reads and writes between the two
    r.enumerate("segmented", np * 40 * 2, 300, opts(), |lo, hi| {
        own_server(2, 5000);
        for it in lo..hi {
            at_item(it);
            let plan = plans[(it % np) as usize].clone();
            let cap = (it / np % 40) as usize + 1;
            let both = it / np / 40 == 1;
            net().dial = Some(Box::new(move |p| {
                p.wcap = Some(cap);
                if both {
                    p.window = cap;
                }
            }));
            CALLS.get().clear();
            *OPSOF.get() = vec![plan.0.clone()];
            p25_get(0, "/one/x", 3, &QS[3], "", &plan, "")?;
            no_panics()?;
        }
        Ok(0)
    });
    // every pair of characters in path, query and response body
    r.enumerate("characters", n_pairs(5), 2000, opts(), |lo, hi| {
        echo_own(2, &[]);
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 5);
            let cd = format!("{}{}", c, d);
            let no = |set: &str| !cd.contains(|x| set.contains(x));
            let e = match t {
                0 if no("?#/") => Echo { path: format!("/{}", cd), query: "k=v".into(), body: b"x".to_vec(), cookies: vec![] },
                1 if no("#") => Echo { path: "/p".into(), query: format!("a={}&b=2{}", c, d), body: b"x".to_vec(), cookies: vec![] },
                2 if no("#&=") => Echo { path: "/p".into(), query: format!("a{}=1&{}b=2", c, d), body: b"x".to_vec(), cookies: vec![] },
                3 => Echo { path: "/p".into(), query: String::new(), body: cd.into_bytes(), cookies: vec![] },
                4 if no("\",;\\") && cd.is_ascii() => Echo { path: "/p".into(), query: String::new(), body: vec![], cookies: vec![("n".into(), cd)] },
                _ => continue,
            };
            echo_get(&e, "", "")?;
        }
        no_panics()
            .map(|_| 0)
    });
    // sizes of everything
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 6, 50, opts(), |lo, hi| {
        echo_own(2, &cs);
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 6];
            let mut e = Echo { path: "/p".into(), query: String::new(), body: b"x".to_vec(), cookies: vec![] };
            match it % 6 {
                0 if n > 300 => continue,
                0 => e.path = "/s".repeat(n + 1),
                1 => e.path = format!("/{}", "p".repeat(n)),
                2 => e.query = (0..n).map(|i| format!("k{}=v{}", i, n - i)).collect::<Vec<_>>().join("&"),
                3 => e.query = format!("a={}&b=2", "v".repeat(n)),
                4 => e.cookies = (0..n).map(|i| (format!("c{}", i), format!("v{}", n - i))).collect(),
                _ => e.cookies = vec![("c".to_string(), "v".repeat(n)), ("d".into(), "w".into())],
            }
            let pw = format!("u:p{}@", n);
            echo_get(&e, ["", &pw][n % 2], ["", "#f"][n / 2 % 2])?;
        }
        no_panics().map(|_| 0)
    });
    let bs = super::resp::body_sizes(r.thorough);
    r.enumerate("body-sizes", bs.len() as u64 * 4, 20, opts(), |lo, hi| {
        echo_own(2, &[]);
        for it in lo..hi {
            at_item(it);
            let n = bs[it as usize / 4];
            let cap = [None, Some(1000), Some(4096), Some(100_000)][it as usize % 4];
            if cap == Some(1000) && n > 1_000_000 {
                continue;
            }
            net().dial = Some(Box::new(move |p| {
                p.wcap = cap;
                if let Some(c) = cap {
                    p.window = c;
                }
            }));
            echo_get(&Echo { path: "/p".into(), query: "a=1".into(), body: super::resp::big(n, it as u32), cookies: vec![("c".into(), "v".into())] }, "", "")?;
        }
        no_panics().map(|_| 0)
    });
    // many clients at once, default schedule
    let (mc, mp) = if r.thorough { (40, 16) } else { (20, 8) };
    r.enumerate("many-clients", (mc * mp * 2) as u64, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (clients, pool, large) = (it as usize % mc + 1, it as usize / mc % mp + 1, it as usize / mc / mp == 1);
            echo_own(pool, &[]);
            let es: Vec<Echo> = (0..clients).map(|i| Echo { path: format!("/c{}", i), query: format!("a={}", i), body: super::resp::big(if large { 9000 + 977 * i } else { i }, i as u32), cookies: vec![(format!("c{}", i), "v".into())] }).collect();
            *PLAN.get() = es.clone();
            static DONE: Cell<Vec<Res>> = Cell::new(vec![]);
            DONE.get().clear();
            for (i, e) in es.into_iter().enumerate() {
                spawn_harness(move || {
                    let x = echo_one(&e, i, "", "");
                    DONE.get().push(x);
                    notify_app();
                });
            }
            if !wait_until(Some(60_000), "clients", || DONE.get().len() == clients) {
                return fail("hang", format!("{} clients, {} pool threads: after 60 s only {} have their answer", clients, pool, DONE.get().len()));
            }
            for x in DONE.get().drain(..) {
                x?;
            }
            no_panics()?;
        }
        Ok(0)
    });
    // several clients at once
    let t = r.thorough;
    for (name, clients, pool, mask, bound) in [
        ("two-clients-pool-1", 2usize, 1usize, K_ALL, if t { 2 } else { 1 }), ("two-clients-pool-2", 2, 2, K_ALL, if t { 2 } else { 1 }),
        ("two-clients-pool-1-deep", 2, 1, K_REDUCED, if t { 3 } else { 2 }), ("two-clients-pool-2-deep", 2, 2, if t { K_REDUCED } else { K_COARSE }, if t { 3 } else { 2 }),
        ("three-clients-pool-2", 3, 2, K_REDUCED, if t { 2 } else { 1 }),
    ] {
        r.explore(name, Opts { bound, mask, secs: if r.thorough { 260 } else { 80 }, ..Opts::default() }, move || {
            let plans: Vec<(Vec<Op>, usize)> = vec![(vec![Op::B(1), Op::Ck(0)], 1), (vec![Op::St(404), Op::Bs(2), Op::Ck(1)], 2), (vec![Op::B(3)], 3)];
            CALLS.get().clear();
            *OPSOF.get() = plans.iter().map(|p| p.0.clone()).collect();
            no_sched(|| own_server(pool, 5000));
            static DONE: Cell<Vec<Res>> = Cell::new(vec![]);
            DONE.get().clear();
            for k in 0..clients {
                let plan = plans[k].clone();
                spawn_harness(move || {
                    let x = p25_get(k, ["/one", "/one/x", "/two"][k], [1, 3, 2][k], &QS[k + 1], ["", "u:p@", ""][k], &plan, "");
                    DONE.get().push(x);
                    notify_app();
                });
            }
            if !wait_until(Some(60_000), "clients", || DONE.get().len() == clients) {
                return fail("hang", format!("after 60 s only {} of {} clients have their answer", DONE.get().len(), clients));
            }
            for x in DONE.get().drain(..) {
                x?;
            }
            if CALLS.get().len() != clients {
                return fail("calls", format!("{} handler invocations for {} requests", CALLS.get().len(), clients));
            }
            no_panics()?;
            Ok(hash_str(&format!("{:?}", CALLS.get())))
        });
    }
}

/// A request and the response to it. The handler finds its plan by the number in the parameter "plan".
#[derive(Clone, Debug)]
struct Echo {
    path: String,
    query: String,
    body: Vec<u8>,
    cookies: Vec<(String, String)>,
}
static PLAN: Cell<Vec<Echo>> = Cell::new(vec![]);
/// (plan, path, parameters as the handler sees them, number of parameters)
static SAW: Cell<Vec<(usize, String, Vec<(String, Option<String>)>, usize)>> = Cell::new(vec![]);

fn params(q: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for p in q.split('&').filter(|p| !p.is_empty()) {
        let (a, b) = p.split_once('=').unwrap_or((p, ""));
        v.retain(|x| x.0 != a);
        v.push((a.to_string(), b.to_string()));
    }
    v
}

fn echo_own(pool: usize, deep: &[usize]) {
    net().hosts.insert("srv".into(), 0x7f000001);
    SAW.get().clear();
    on_call(|c, _| {
        let k: usize = c.req_param("plan").unwrap_or_default().parse().unwrap_or(0);
        let e = match PLAN.get().get(k) {
            Some(e) => e.clone(),
            None => return,
        };
        let seen = params(&e.query).into_iter().map(|(a, _)| { let v = c.req_param(a.as_str()); (a, v) }).collect();
        SAW.get().push((k, c.req_path(), seen, c.req_count_param()));
        for (a, b) in e.cookies {
            c.resp_add_cookie(starry::header::Cookie::new(a, b));
        }
        c.resp_body(e.body);
        c.response();
    });
    let mut s = new_server(pool);
    s.set_keepalive(5000);
    let g = s.router("");
    g.get("/:one", HS[0]);
    for n in deep.iter().filter(|n| **n <= 300) {
        g.get(&"/s".repeat(n + 1), HS[0]);
    }
    start(&s);
}

fn echo_get(e: &Echo, user: &str, frag: &str) -> Res {
    *PLAN.get() = vec![e.clone()];
    SAW.get().clear();
    echo_one(e, 0, user, frag)
}

fn echo_one(e: &Echo, k: usize, user: &str, frag: &str) -> Res {
    let q = format!("{}{}plan={}", e.query, if e.query.is_empty() { "" } else { "&" }, k);
    let url = format!("http://{}srv:{}{}?{}{}", user, PORT, e.path, q, frag);
    let text = || format!("GET {:?} of {} bytes (response body of {} bytes, {} cookies)", url.chars().take(200).collect::<String>(), url.len(), e.body.len(), e.cookies.len());
    let mut r = match client_get(&url) {
        Err(p) => return fail("panic", format!("{} panicked: {}", text(), p)),
        Ok(Err(x)) => return fail("error", format!("{} failed: {}", text(), x)),
        Ok(Ok(r)) => r,
    };
    let got = r.body();
    if got != e.body {
        return fail("body", format!("{}: {} bytes of body {:?}, the handler wrote {:?}", text(), got.len(), show(&got), show(&e.body)));
    }
    let cs: Vec<(String, String)> = match r.read_set_cookies() {
        Ok(v) => v.iter().map(nv).collect(),
        Err(x) => return fail("cookies", format!("{}: {}", text(), x)),
    };
    if cs != e.cookies {
        return fail("cookies", format!("{}: {} cookies, not the {} set, e.g. {:?}", text(), cs.len(), e.cookies.len(), cs.iter().zip(&e.cookies).find(|(a, b)| a != b)));
    }
    let mine: Vec<_> = SAW.get().iter().filter(|x| x.0 == k).cloned().collect();
    if mine.len() != 1 {
        return fail("calls", format!("{}: {} handler invocations", text(), mine.len()));
    }
    let want: Vec<(String, Option<String>)> = params(&e.query).into_iter().map(|(a, b)| (a, Some(b))).collect();
    let m = &mine[0];
    if m.1 != e.path || m.2 != want || m.3 != want.len() + 1 {
        return fail("request", format!("{}: the handler saw path {:?} ({} bytes), {} parameters, e.g. {:?}", text(), m.1.chars().take(100).collect::<String>(), m.1.len(), m.3, m.2.iter().zip(&want).find(|(a, b)| a != b)));
    }
    Ok(0)
}

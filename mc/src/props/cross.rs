//! Every combination of the parts of a request (method, version, path, query, cookies, credentials,
//! body, connection header, spelling of the header names), and of request and response: what a
//! handler or caller sees of one part does not depend on the others.
use super::req::*;
use super::routes::add;
use crate::explore::*;
use crate::http::*;
use crate::rt::*;
use crate::run::Run;
use starry::{Context, Extend};
use std::collections::BTreeMap;

const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
/// What of a request the property is about.
#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    All,
    Fields,
    Filters,
    Query,
    Form,
    Files,
    Cookies,
    User,
    Caller,
    Headers,
}

#[derive(Clone, Default, Debug, PartialEq)]
struct Sight {
    path: String,
    fields: (usize, Vec<(String, String)>),
    query: (usize, Vec<(String, String)>),
    form: (usize, Vec<(String, String)>),
    files: Vec<(String, String, Vec<u8>)>,
    cookies: Vec<(String, String)>,
    user: Option<(String, String)>,
    headers: BTreeMap<String, Vec<String>>,
    lookups: Vec<Option<String>>,
    caller: (String, u16, bool),
}
static SIGHTS: Cell<Vec<(Tag, Sight)>> = Cell::new(vec![]);
static LOOKUPS: Cell<Vec<String>> = Cell::new(vec![]);
static LOOK: Cell<usize> = Cell::new(0);

const NAMES: [&str; 10] = ["a", "b", "id", "x", "k", "f", "up", "", "zz", "g"];

fn see(c: &mut Context) -> Sight {
    let mut s = Sight { path: c.req_path(), ..Sight::default() };
    let (mut f, mut q, mut m) = (vec![], vec![], vec![]);
    for n in NAMES {
        f.extend(c.req_field(n).map(|v| (n.to_string(), v)));
        q.extend(c.req_param(n).map(|v| (n.to_string(), v)));
        match c.req_form(n) {
            Ok(v) => m.extend(v.map(|v| (n.to_string(), v))),
            Err(e) => m.push((n.into(), format!("unreadable: {}", e))),
        }
        if let Ok(Some(v)) = c.req_form_file(n) {
            s.files.push((n.into(), v.filename(), v.content()));
        }
        if c.req_have_field(n) != f.iter().any(|x| x.0 == n) {
            f.push((n.into(), "have".into()));
        }
        if c.req_have_param(n) != q.iter().any(|x| x.0 == n) {
            q.push((n.into(), "have".into()));
        }
    }
    s.fields = (c.req_count_fields(), f);
    s.query = (c.req_count_param(), q);
    s.form = (c.req_count_form().unwrap_or(usize::MAX), m);
    s.cookies = c.req_cookies().iter().map(cookie_nv).collect();
    s.user = c.req_userinfo().map(|u| (u.username(), u.password()));
    s.headers = c.req_header().map().into_iter().collect();
    s.lookups = LOOKUPS.get().iter().map(|k| c.req_header_get(k.as_str())).collect();
    let a = c.req_client_addr();
    s.caller = (a.host(), a.port(), c.req_is_web_socket());
    s
}

fn differ(a: Aspect, x: &Sight, y: &Sight) -> Option<String> {
    let d = |what: &str, ne: bool, p: String, q: String| if ne { Some(format!("{}: sees {}, sent {}", what, p, q)) } else { None };
    macro_rules! f {
        ($n:ident) => {
            d(stringify!($n), x.$n != y.$n, format!("{:?}", x.$n), format!("{:?}", y.$n))
        };
    }
    match a {
        Aspect::Fields => f!(fields),
        Aspect::Query => f!(query).or(f!(path)),
        Aspect::Form => f!(form),
        Aspect::Files => f!(files).or(f!(form)),
        Aspect::Cookies => f!(cookies),
        Aspect::User => f!(user),
        Aspect::Caller => f!(caller),
        Aspect::Headers => f!(headers).or(f!(lookups)),
        Aspect::All | Aspect::Filters => f!(path).or(f!(fields)).or(f!(query)).or(f!(form)).or(f!(files)).or(f!(cookies)).or(f!(user)).or(f!(headers)).or(f!(lookups)),
    }
}

const QUERIES: [&str; 3] = ["", "?a=1&b=x=y", "?k"];
const PATHS: [&str; 3] = ["/g/s", "/g/v/4%2", "/g/v/a=1/w/~"];
const CONNS: [&str; 3] = ["", "keep-alive", "Upgrade"];

#[derive(Clone, Copy)]
struct Shape {
    m: usize,
    ver: usize,
    path: usize,
    query: usize,
    cookie: usize,
    auth: usize,
    body: usize,
    conn: usize,
    case: usize,
    lead: usize, // order of the header lines
}

fn shapes() -> Vec<Shape> {
    let mut v = vec![];
    for m in 0..12 {
        let bodies = if [2, 3, 8].contains(&m) { 7 } else { 1 };
        for i in 0..2 * 3 * 3 * 3 * 3 * bodies * 3 * 2 * 2 {
            let mut k = i;
            let mut d = |n: usize| {
                let x = k % n;
                k /= n;
                x
            };
            v.push(Shape { m, ver: d(2), path: d(3), query: d(3), cookie: d(3), auth: d(3), body: d(bodies), conn: d(3), case: d(2), lead: d(2) });
        }
    }
    v
}

fn big() -> String {
    "0123456789abcdef".repeat(130)
}

/// The bytes, the length of the head, and what must be seen of it.
fn render(s: &Shape) -> (Vec<u8>, usize, Sight) {
    let mut w = Sight::default();
    let st = |l: &[(&str, &str)]| -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        v.sort_by_key(|x| NAMES.iter().position(|n| *n == x.0));
        v
    };
    w.path = PATHS[s.path].to_string();
    let f = [st(&[]), st(&[("id", "4%2")]), st(&[("id", "a=1"), ("x", "~")])][s.path].clone();
    w.fields = (f.len(), f);
    let q = [st(&[]), st(&[("a", "1"), ("b", "x=y")]), st(&[("k", "")])][s.query].clone();
    w.query = (q.len(), q);
    let mut h: Vec<(String, String)> = vec![];
    match s.cookie {
        0 => {}
        1 => h.push(("Cookie".into(), "id=c1".into())),
        _ => h.push(("Cookie".into(), "id=c1; a=c2".into())),
    }
    w.cookies = [st(&[]), st(&[("id", "c1")]), vec![("id".into(), "c1".into()), ("a".into(), "c2".into())]][s.cookie].clone();
    match s.auth {
        0 => {}
        1 => {
            h.push(("Authorization".into(), format!("Basic {}", b64(b"us:p:w"))));
            w.user = Some(("us".into(), "p:w".into()));
        }
        _ => h.push(("Authorization".into(), "Bearer dTpw".into())),
    }
    h.push(("X-Own".into(), "v: w".into()));
    let form = "application/x-www-form-urlencoded";
    let parts = [
        Part { file: None, name: "a", content: b"t\r\n--Xy".to_vec() },
        Part { file: Some("n.bin"), name: "up", content: b"\r\n--XyZ\0\r\n".to_vec() },
        Part { file: None, name: "zz", content: vec![] },
    ];
    let mut body = vec![];
    match s.body {
        0 => {}
        1 => {}
        2 => body = b"a=raw&k=1".to_vec(),
        3 => {
            h.push(("Content-Type".into(), form.into()));
            body = b"a=form&k=b=1&g".to_vec();
            w.form = (3, st(&[("a", "form"), ("k", "b=1"), ("g", "")]));
        }
        4 => {
            h.push(("Content-Type".into(), form.into()));
            body = format!("f={}&id=9", big()).into_bytes();
            w.form = (2, st(&[("f", &big()), ("id", "9")]));
        }
        _ => {
            h.push(("Content-Type".into(), "multipart/form-data; boundary=XyZw".into()));
            let mut ps = parts.to_vec();
            if s.body == 6 {
                ps[1].content = big().into_bytes();
            }
            body = multipart(&ps, "XyZw", 0);
            w.form = (2, st(&[("a", "t\r\n--Xy"), ("zz", "")]));
            w.files = vec![("up".into(), "n.bin".into(), ps[1].content.clone())];
        }
    }
    if s.body > 0 {
        h.push(("Content-Length".into(), body.len().to_string()));
    }
    if s.conn > 0 {
        h.push(("Connection".into(), CONNS[s.conn].into()));
        if s.conn == 2 {
            h.push(("Upgrade".into(), "websocket".into()));
            w.caller.2 = true;
        }
    }
    if s.lead == 1 {
        h.reverse();
    }
    h.insert(if s.lead == 1 { h.len() } else { 0 }, ("Host".into(), "h".into()));
    if s.case == 1 {
        h.iter_mut().for_each(|x| x.0 = x.0.to_lowercase());
    }
    let mut v = format!("{} {}{} HTTP/{}\r\n", METHODS[s.m], PATHS[s.path], QUERIES[s.query], ["1.1", "1.0"][s.ver]).into_bytes();
    for (k, x) in &h {
        v.extend(format!("{}: {}\r\n", k, x).bytes());
    }
    v.extend(b"\r\n");
    let n = v.len();
    v.extend(&body);
    w.headers = h.iter().map(|(k, x)| (k.clone(), vec![x.clone()])).collect();
    w.lookups = h.iter().map(|x| Some(x.1.clone())).chain([None, None]).collect();
    *LOOKUPS.get() = h.iter().map(|x| x.0.clone()).chain(["zz".to_string(), String::new()]).collect();
    (v, n, w)
}

/// Filters look first (LOOK & 1: the route's own, LOOK & 2: the group's), the handler always.
fn server() -> starry::HttpServer {
    on_call(|c, tag| {
        let look = match tag {
            Tag::F(i) => *LOOK.get() >> i & 1 == 1,
            Tag::H(_) => true,
        };
        if look {
            let s = see(c);
            SIGHTS.get().push((tag, s));
        }
        if let Tag::H(_) = tag {
            c.resp_body(b"ok".to_vec());
            c.response();
        }
    });
    let s = new_server(1);
    let g = s.router_wf("/g", Extend::e1(vec![FS[1]]));
    for m in 0..12 {
        for p in ["/s", "/v/:id", "/v/:id/w/:x"] {
            add!(g, m, p, HS[m], Some(Extend::e1(vec![FS[0]])));
        }
    }
    start(&s);
    s
}

pub fn requests(r: &mut Run, a: Aspect) {
    let all = shapes();
    // with every combination of looking filters where that is the point, else one of them in turn
    let looks = if a == Aspect::Filters { 4 } else { 1 };
    r.enumerate("combinations", all.len() as u64 * looks, 2048, opts(), |lo, hi| {
        let _s = server();
        for it in lo..hi {
            at_item(it);
            let i = it / looks;
            let (b, head, mut want) = render(&all[i as usize]);
            *LOOK.get() = if looks == 4 { it % 4 } else { (i / 7) % 4 } as usize;
            SIGHTS.get().clear();
            let (ip, port) = (0x0A000001 + (i % 200) as u32, 1000 + (it % 50_000) as u16);
            let mut c = Cl::from(ip, port);
            want.caller = (std::net::Ipv4Addr::from(ip).to_string(), port, want.caller.2);
            match (i / 3) % 4 {
                0 => c.send(&b),
                1 => c.p.send_segments(&[&b[..head], &b[head..]]),
                2 => c.p.send_segments(&[&b[..head / 2], &b[head / 2..head + (b.len() - head) / 2], &b[head + (b.len() - head) / 2..]]),
                _ => c.p.send_segments(&[&b[..head - 2], &b[head - 2..]]),
            }
            let rs = c.next(5000);
            c.p.close();
            let text = || show(&b[..b.len().min(900)]);
            match rs {
                Ok(rs) if rs.status == 200 && rs.body == b"ok" => {}
                x => return fail("not-served", format!("request {:?}: {:?} {:?}", text(), x, panics())),
            }
            let m = all[i as usize].m;
            let mut tags: Vec<Tag> = (0..2).filter(|f| *LOOK.get() >> f & 1 == 1).map(Tag::F).collect();
            tags.push(Tag::H(m));
            let got: Vec<Tag> = SIGHTS.get().iter().map(|x| x.0).collect();
            if got != tags {
                return fail("runs", format!("request {:?}: ran {:?}, expected {:?}", text(), got, tags));
            }
            for (tag, s) in SIGHTS.get().iter() {
                if matches!(tag, Tag::F(_)) && a != Aspect::Filters && a != Aspect::All {
                    continue;
                }
                if let Some(d) = differ(a, s, &want) {
                    return fail("sees", format!("request {:?}: {:?} (filters looked before: {}) {}", text(), tag, tags.len() - 1, d));
                }
            }
        }
        no_panics()?;
        Ok(0)
    });
}

/// Sequences of combinations on one kept connection: each request is seen as if it were alone.
pub fn kept(r: &mut Run) {
    let few: Vec<Shape> = shapes().into_iter().filter(|s| [1, 2, 4, 8].contains(&s.m) && s.ver == s.query && s.path != 1 && s.query != 2 && s.cookie != 1 && s.auth != 2 && ![1, 4, 6].contains(&s.body) && s.conn == 1 && s.case == 0 && s.lead == 0).collect();
    let n = few.len() as u64;
    let run = |it: u64, len: usize, way: u64| -> Result<(), Verdict> {
        let mut k = it;
        let mut all = vec![];
        let mut wants = vec![];
        for _ in 0..len {
            let (b, head, w) = render(&few[(k % n) as usize]);
            wants.push((few[(k % n) as usize].m, LOOKUPS.get().clone(), w));
            all.push((b, head));
            k /= n;
        }
        *LOOK.get() = 0;
        SIGHTS.get().clear();
        // the same lookups for every one of them
        let names: Vec<String> = wants.iter().flat_map(|w| w.1.iter().cloned()).collect();
        for w in wants.iter_mut() {
            w.2.lookups = names.iter().map(|x| w.2.headers.get(x).map(|v| v[0].clone())).collect();
        }
        *LOOKUPS.get() = names;
        let mut c = Cl::from(0x0A000007, 4000);
        let text = || all.iter().map(|b| show(&b.0[..b.0.len().min(500)])).collect::<Vec<_>>();
        if way > 0 {
            let joined: Vec<u8> = all.iter().flat_map(|b| b.0.iter().copied()).collect();
            let cut = if way == 1 { all[0].0.len() / 2 } else { all[0].0.len() + all[1].1 / 2 };
            if way == 3 {
                c.send(&joined);
            } else {
                c.p.send_segments(&[&joined[..cut], &joined[cut..]]);
            }
        }
        for (j, (b, _)) in all.iter().enumerate() {
            if way == 0 {
                c.send(b);
            }
            match c.next(5000) {
                Ok(rs) if rs.status == 200 && rs.body == b"ok" => {}
                x => return fail("not-served", format!("requests {:?} on one connection, number {}: {:?} {:?}", text(), j, x, panics())),
            }
        }
        c.p.close();
        if SIGHTS.get().len() != len {
            return fail("runs", format!("requests {:?} on one connection: handlers ran {} times", text(), SIGHTS.get().len()));
        }
        for (j, (tag, s)) in SIGHTS.get().iter().enumerate() {
            let d = if *tag != Tag::H(wants[j].0) { Some(format!("ran {:?}", tag)) } else { differ(Aspect::All, s, &wants[j].2) };
            if let Some(d) = d {
                return fail("sees", format!("requests {:?} on one connection, number {}: {}", text(), j, d));
            }
        }
        Ok(())
    };
    r.enumerate("combinations", n * n * 4, 2048, opts(), |lo, hi| {
        let _s = server();
        for it in lo..hi {
            at_item(it);
            run(it / 4, 2, it % 4)?;
        }
        no_panics()?;
        Ok(0)
    });
    if r.thorough {
        r.enumerate("combinations-3", n * n * n, 8192, opts(), |lo, hi| {
            let _s = server();
            for it in lo..hi {
                at_item(it);
                run(it, 3, it % 4)?;
            }
            no_panics()?;
            Ok(0)
        });
    }
}

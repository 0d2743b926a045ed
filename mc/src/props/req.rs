//! P17-P20, P22, P31: what a handler reads from a request, for every input over small alphabets.
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::{Context, HttpServer};
use std::collections::BTreeMap;

/// Number of strings of length <= d over k symbols, and the i-th of them as symbol indices.
pub fn nstr(k: usize, d: u32) -> u64 {
    (0..=d).map(|x| (k as u64).pow(x)).sum()
}
pub fn nth(k: usize, mut i: u64) -> Vec<usize> {
    let mut d = 0;
    while i >= (k as u64).pow(d) {
        i -= (k as u64).pow(d);
        d += 1;
    }
    (0..d)
        .map(|_| {
            let x = (i % k as u64) as usize;
            i /= k as u64;
            x
        })
        .collect()
}
pub fn cat(alpha: &[&str], ix: &[usize]) -> String {
    ix.iter().map(|&i| alpha[i]).collect()
}
pub fn catb(alpha: &[&[u8]], ix: &[usize]) -> Vec<u8> {
    ix.iter().flat_map(|&i| alpha[i].iter().copied()).collect()
}
pub fn opts() -> Opts {
    Opts { steps: u64::MAX / 2, secs: 700, hang_secs: 120, ..Opts::default() }
}

/// Every printable ASCII character, and two that take more than one byte.
pub fn chars() -> Vec<String> {
    (0x21u8..0x7f).map(|c| (c as char).to_string()).chain(["é".to_string(), "中".to_string()]).collect()
}
/// The i-th pair of `chars()`, and which template to put it in.
pub fn char_pair(it: u64, templates: u64) -> (String, String, usize) {
    let c = chars();
    let k = c.len() as u64;
    (c[(it / templates % k) as usize].clone(), c[(it / templates / k) as usize].clone(), (it % templates) as usize)
}
pub fn n_pairs(templates: u64) -> u64 {
    let k = chars().len() as u64;
    k * k * templates
}
/// How many names of one kind to send at once: every number up to 40, then some larger ones.
pub fn counts(thorough: bool) -> Vec<usize> {
    (0..=40).chain([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]).chain(if thorough { (300..=2000).step_by(17).collect::<Vec<_>>() } else { vec![500, 1000] }).collect()
}

/// 'a=b&c' as the specification reads it.
fn pairs(s: &str) -> BTreeMap<String, String> {
    s.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').unwrap_or((p, ""))).map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

/// Names to ask the handler for: everything that can occur as a name, plus some that cannot.
fn names(alpha: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = (0..nstr(alpha.len(), 2)).map(|i| cat(alpha, &nth(alpha.len(), i))).collect();
    v.push("zz".into());
    v
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Seen {
    pub n: usize,
    pub path: String,
    pub map: BTreeMap<String, String>,
    pub count: usize,
    pub err: Option<String>,
}
static SEEN: Cell<Seen> = Cell::new(Seen { n: 0, path: String::new(), map: BTreeMap::new(), count: 0, err: None });
static NAMES: Cell<Vec<String>> = Cell::new(vec![]);

fn answer(c: &mut Context) {
    c.resp_body(b"ok".to_vec());
    c.response();
}

fn all_methods(s: &HttpServer, pat: &str) {
    let g = s.router("");
    g.get(pat, HS[0]);
    g.post(pat, HS[0]);
    g.put(pat, HS[0]);
    g.patch(pat, HS[0]);
    g.delete(pat, HS[0]);
}

pub fn p17(r: &mut Run) {
    r.assume("targets '/p' followed by every string over the alphabet up to the bound; no percent-decoding is specified");
    let alpha = ["a", "b", "=", "&", "?", "#", "/", "%41", "+", "é"];
    let wide = if r.thorough { 7 } else { 6 };
    let narrow = ["a", "b", "=", "&"];
    let deep = if r.thorough { 12 } else { 9 };
    query(r, "wide", "/p", &alpha, wide);
    query(r, "deep", "/p?", &narrow, deep);
    query(r, "deep-repeat", "/p?a=1&ab=", &["a", "=", "&", "b=2", "&a"], if r.thorough { 9 } else { 7 });
    let base = vec!["zz".to_string(), "a".into(), "b".into(), String::new()];
    query_of(r, "characters", n_pairs(6), base.clone(), |it| {
        let (c, d, t) = char_pair(it, 6);
        match t {
            0 => format!("/p?{}{}", c, d),
            1 => format!("/p?a{}{}=1&b=2", c, d),
            2 => format!("/p?a={}{}&b=2", c, d),
            3 => format!("/p?{}={}", c, d),
            4 => format!("/{}{}?a=1", c, d),
            _ => format!("/x/{}?a={}", c, d),
        }
    });
    let cs = counts(r.thorough);
    query_of(r, "counts", cs.len() as u64 * 5, base, |it| {
        let n = cs[it as usize / 5];
        match it % 5 {
            0 => format!("/p?{}", (0..n).map(|i| format!("k{}=v{}", i, n - i)).collect::<Vec<_>>().join("&")),
            1 => format!("/p?a=0&{}&b=2", (0..n).map(|i| format!("a={}", i)).collect::<Vec<_>>().join("&")),
            2 => format!("/p?{}=v&b=2", "k".repeat(n)),
            3 => format!("/p?a={}&b=2", "v=".repeat(n)),
            _ => format!("/{}?a=1{}", "p".repeat(n + 1), "&".repeat(n)),
        }
    });
    super::cross::requests(r, super::cross::Aspect::Query);
}

fn query(r: &mut Run, name: &str, pre: &str, alpha: &[&str], depth: u32) {
    query_of(r, name, nstr(alpha.len(), depth), names(alpha), |it| format!("{}{}", pre, cat(alpha, &nth(alpha.len(), it))))
}

fn query_of(r: &mut Run, name: &str, n: u64, base: Vec<String>, target: impl Fn(u64) -> String) {
    r.enumerate(name, n, 2048, opts(), |lo, hi| {
        on_call(|c, _| {
            let mut map = BTreeMap::new();
            for k in NAMES.get().iter() {
                if let Some(v) = c.req_param(k.as_str()) {
                    map.insert(k.clone(), v);
                }
                if c.req_have_param(k.as_str()) != c.req_param(k.as_str()).is_some() {
                    map.insert(format!("have {}", k), "wrong".into());
                }
            }
            let n = SEEN.get().n + 1;
            *SEEN.get() = Seen { n, path: c.req_path(), map, count: c.req_count_param(), err: None };
            answer(c);
        });
        let s = new_server(1);
        for p in ["/p", "/:x", "/:x/:y", "/:x/:y/:z", "/:x/:y/:z/:u", "/:x/:y/:z/:u/:v", "/:x/:y/:z/:u/:v/:w"] {
            s.router("").get(p, HS[0]);
        }
        start(&s);
        for it in lo..hi {
            at_item(it);
            let t = target(it);
            let src = t.split('#').next().unwrap();
            let (path, q) = src.split_once('?').unwrap_or((src, ""));
            let want = pairs(q);
            *NAMES.get() = base.iter().chain(want.keys()).cloned().collect();
            SEEN.get().n = 0;
            let rs = match once(&get(&t)) {
                Ok(x) => x,
                Err(e) => return fail("no-answer", format!("target {:?}: {} {:?}", t, e, panics())),
            };
            let seen = SEEN.get().clone();
            if path.matches('/').count() > 6 {
                continue; // no route has that many segments
            }
            if rs.status != 200 || seen.n != 1 {
                return fail("not-served", format!("target {:?}: status {} handler ran {}x", t, rs.status, seen.n));
            }
            if seen.path != path {
                return fail("path", format!("target {:?}: path {:?}, handler sees {:?}", t, path, seen.path));
            }
            if seen.map != want || seen.count != want.len() {
                return fail("params", format!("target {:?}: expected {:?}, handler sees {:?} (count {})", t, want, seen.map, seen.count));
            }
        }
        no_panics()?;
        Ok(0)
    });
}

pub fn p18(r: &mut Run) {
    r.assume("bodies are every string over the alphabet up to the bound, sent with Content-Length; POST, PUT and PATCH; names and values verbatim, no percent-decoding");
    form(r, "wide", &["a", "b", "=", "&", "?", "#", "%26", "+", "\r\n", "é", ";"], if r.thorough { 7 } else { 6 });
    form(r, "deep", &["a", "b", "=", "&"], if r.thorough { 11 } else { 9 });
    form(r, "repeat", &["a=1", "ab=2", "&", "=", "b"], if r.thorough { 9 } else { 7 });
    // all characters, and many fields
    r.enumerate("characters", n_pairs(4) + 128 * 128, 2048, opts(), |lo, hi| {
        form_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let b = if it < 128 * 128 {
                format!("a={}{}&b", (it % 128) as u8 as char, (it / 128) as u8 as char)
            } else {
                let (c, d, t) = char_pair(it - 128 * 128, 4);
                match t {
                    0 => format!("{}{}", c, d),
                    1 => format!("a{}{}=1&b=2", c, d),
                    2 => format!("a={}{}&b=2", c, d),
                    _ => format!("{}={}", c, d),
                }
            };
            probe_form(&b, it as usize, "application/x-www-form-urlencoded", true)?;
        }
        no_panics()?;
        Ok(0)
    });
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 4, 16, opts(), |lo, hi| {
        form_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 4];
            let b = match it % 4 {
                0 => (0..n).map(|i| format!("k{}=v{}", i, n - i)).collect::<Vec<_>>().join("&"),
                1 => format!("a=0&{}&b=2", (0..n).map(|i| format!("a={}", i)).collect::<Vec<_>>().join("&")),
                2 => format!("{}=v&b=2", "k".repeat(n)),
                _ => format!("a={}&{}b=2", "v=".repeat(n), "&".repeat(n)),
            };
            probe_form(&b, it as usize, "application/x-www-form-urlencoded", true)?;
        }
        no_panics()?;
        Ok(0)
    });
    // long values: the body spans several reads
    let step = if r.thorough { 1 } else { 13 };
    r.enumerate("long", 3300 / step, 200, opts(), |lo, hi| {
        form_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let n = (it * step) as usize;
            let a: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            probe_form(&format!("k={}&b=2", a), it as usize, "application/x-www-form-urlencoded", true)?;
        }
        no_panics()?;
        Ok(0)
    });
    // the content type decides
    let types = [
        ("application/x-www-form-urlencoded", true),
        ("application/x-www-form-urlencoded; charset=utf-8", true),
        ("application/x-www-form-urlencoded;charset=utf-8", true),
        ("Application/X-WWW-Form-UrlEncoded", true),
        ("text/plain", false),
        ("application/json", false),
        ("application/octet-stream", false),
        ("application/x-www-form-urlencode", false),
        ("x", false),
    ];
    r.enumerate("types", (types.len() * 12) as u64, 1000, opts(), |lo, hi| {
        form_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (ct, is) = types[it as usize % types.len()];
            let b = ["a=1&b=2", "a", "=", "&"][(it as usize / types.len()) % 4];
            probe_form(b, it as usize / types.len() / 4, ct, is)?;
        }
        no_panics()?;
        Ok(0)
    });
    super::cross::requests(r, super::cross::Aspect::Form);
}

/// Which way of asking for the form comes first (the body is read by the first), and whether
/// every question is asked twice.
static ORDER: Cell<usize> = Cell::new(0);
fn order_of(n: usize) -> usize {
    // all orders for neighbouring items of every enumeration, whatever its stride
    (n ^ (n >> 3) ^ (n >> 7)) % 6
}
/// Asks first what ORDER says; the answers count like all later ones.
fn first_question(c: &mut Context, k: &str) -> Vec<Option<usize>> {
    let twice = *ORDER.get() == 5;
    let mut counts = vec![];
    match *ORDER.get() {
        1 => {
            let _ = c.req_form_file(k);
        }
        2 => counts.push(c.req_count_form().ok()),
        3 => {
            let _ = c.req_have_form(k);
        }
        4 => {
            let _ = c.req_form(k);
        }
        _ => {}
    }
    if twice {
        for _ in 0..2 {
            counts.push(c.req_count_form().ok());
        }
    }
    counts
}

fn form_handler() {
    on_call(|c, _| {
        let mut map = BTreeMap::new();
        let mut err = None;
        let names = NAMES.get().clone();
        let mut counts = vec![];
        let mut firsts: Vec<(String, Option<String>, Option<bool>)> = vec![];
        if let Some(k) = names.get(*ORDER.get() % names.len().max(1)) {
            // the very first question is put to a name whose answer is compared, too
            match *ORDER.get() {
                4 => {
                    if let Ok(v) = c.req_form(k.as_str()) {
                        firsts.push((k.clone(), v, None));
                    }
                }
                3 => {
                    if let Ok(v) = c.req_have_form(k.as_str()) {
                        firsts.push((k.clone(), None, Some(v)));
                    }
                }
                _ => counts = first_question(c, k),
            }
        }
        let rounds = if *ORDER.get() == 5 { 2 } else { 1 };
        for round in 0..rounds {
            for k in names.iter() {
                let have = c.req_have_form(k.as_str());
                match c.req_form(k.as_str()) {
                    Ok(Some(v)) => {
                        let old = map.insert(k.clone(), v.clone());
                        if round > 0 && old != Some(v) {
                            map.insert(format!("again {}", k), "wrong".into());
                        }
                    }
                    Ok(None) => {
                        if map.contains_key(k) && round > 0 {
                            map.insert(format!("again {}", k), "gone".into());
                        }
                    }
                    Err(e) => err = Some(e.to_string()),
                }
                if have.ok() != Some(map.contains_key(k)) {
                    map.insert(format!("have {}", k), "wrong".into());
                }
                if let Ok(Some(_)) = c.req_form_file(k.as_str()) {
                    map.insert(format!("file {}", k), "wrong".into());
                }
            }
        }
        for (k, v, have) in firsts {
            let now = map.get(&k).cloned();
            if match have {
                Some(h) => h != now.is_some(),
                None => v != now,
            } {
                map.insert(format!("first {}", k), "wrong".into());
            }
        }
        let n = SEEN.get().n + 1;
        let count = c.req_count_form().unwrap_or(usize::MAX);
        if counts.iter().any(|x| *x != Some(count)) {
            map.insert("count".into(), format!("first {:?}", counts));
        }
        *SEEN.get() = Seen { n, path: c.req_path(), map, count, err };
        answer(c);
    });
}

fn probe_form(body: &str, kind: usize, ct: &str, is_form: bool) -> Result<(), Verdict> {
    let m = ["POST", "PUT", "PATCH"][kind % 3];
    let want = if is_form { pairs(body) } else { BTreeMap::new() };
    let mut nm: Vec<String> = names(&["a", "b", "=", "&"]);
    nm.extend(pairs(body).keys().cloned());
    *NAMES.get() = nm;
    SEEN.get().n = 0;
    *ORDER.get() = order_of(kind);
    let rq = format!("{} /f HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n{}", m, ct, body.len(), body);
    let rs = match once(rq.as_bytes()) {
        Ok(x) => x,
        Err(e) => return fail("no-answer", format!("{} body {:?}: {} {:?}", m, body, e, panics())),
    };
    let seen = SEEN.get().clone();
    if rs.status != 200 || seen.n != 1 || seen.err.is_some() {
        return fail("not-served", format!("{} body {:?}: status {} handler {}x {:?}", m, body, rs.status, seen.n, seen.err));
    }
    if seen.map != want || seen.count != want.len() {
        return fail("fields", format!("{} {:?} body {:?}: expected {:?}, handler sees {:?} (count {})", m, ct, body, want, seen.map, seen.count));
    }
    Ok(())
}

fn form(r: &mut Run, name: &str, alpha: &[&str], depth: u32) {
    let n = nstr(alpha.len(), depth);
    let alpha: Vec<&str> = alpha.to_vec();
    r.enumerate(name, n, 2048, opts(), |lo, hi| {
        form_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            probe_form(&cat(&alpha, &nth(alpha.len(), it)), it as usize, "application/x-www-form-urlencoded", true)?;
        }
        no_panics()?;
        Ok(0)
    });
}

// ------------------------------------------------------------------ P19
#[derive(Clone, Debug, PartialEq)]
pub struct Part {
    pub file: Option<&'static str>,
    pub name: &'static str,
    pub content: Vec<u8>,
}
pub fn multipart(parts: &[Part], boundary: &str, style: usize) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend(format!("--{}\r\n", boundary).bytes());
        match p.file {
            None => v.extend(format!("Content-Disposition: form-data; name=\"{}\"\r\n", p.name).bytes()),
            Some(f) => {
                v.extend(format!("Content-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\n", p.name, f).bytes());
                match style % 3 {
                    0 => v.extend(b"Content-Type: application/octet-stream\r\n"),
                    1 => {}
                    _ => v.extend(b"Content-Type: text/plain; charset=x\r\nContent-Transfer-Encoding: binary\r\n"),
                }
            }
        }
        v.extend(b"\r\n");
        v.extend(&p.content);
        v.extend(b"\r\n");
    }
    v.extend(format!("--{}--", boundary).bytes());
    if style % 2 == 0 {
        v.extend(b"\r\n");
    }
    v
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Parts {
    n: usize,
    text: BTreeMap<String, String>,
    files: BTreeMap<String, (String, Vec<u8>, usize)>,
    count: usize,
    err: bool,
}
static PARTS: Cell<Parts> = Cell::new(Parts { n: 0, text: BTreeMap::new(), files: BTreeMap::new(), count: 0, err: false });
static PN: Cell<Vec<String>> = Cell::new(vec![]);

fn multipart_handler() {
    on_call(|c, _| {
        let mut p = Parts { n: PARTS.get().n + 1, ..Parts::default() };
        let names: Vec<String> = ["a", "b", "c d", "", "f"].iter().map(|x| x.to_string()).chain(PN.get().iter().cloned()).collect();
        let order = *ORDER.get();
        let lead = PN.get().get(p.n % PN.get().len().max(1)).cloned().unwrap_or("a".into());
        let (mut counts, mut first_file, mut first_text, mut first_have) = (vec![], None, None, None);
        // the answer to the very first question counts like the later ones
        match order {
            1 => first_file = c.req_form_file(lead.as_str()).ok().map(|f| f.map(|f| (f.filename(), f.content(), f.size()))),
            3 => first_have = c.req_have_form(lead.as_str()).ok(),
            4 => first_text = c.req_form(lead.as_str()).ok(),
            _ => counts = first_question(c, &lead),
        }
        for round in 0..if order == 5 { 2 } else { 1 } {
            for k in names.iter() {
                let k = k.as_str();
                let have = c.req_have_form(k);
                for side in [order % 2, 1 - order % 2] {
                    if side == 0 {
                        match c.req_form(k) {
                            Ok(Some(v)) => {
                                p.text.insert(k.into(), v);
                            }
                            Ok(None) => p.err |= round > 0 && p.text.contains_key(k),
                            Err(_) => p.err = true,
                        }
                    } else {
                        match c.req_form_file(k) {
                            Ok(Some(f)) => {
                                p.files.insert(k.into(), (f.filename(), f.content(), f.size()));
                            }
                            Ok(None) => p.err |= round > 0 && p.files.contains_key(k),
                            Err(_) => p.err = true,
                        }
                    }
                }
                p.err |= have.ok() != Some(p.text.contains_key(k));
            }
        }
        p.count = c.req_count_form().unwrap_or(usize::MAX);
        p.err |= counts.iter().any(|x| *x != Some(p.count));
        p.err |= order == 1 && first_file.as_ref() != Some(&p.files.get(&lead).cloned()) && !p.err;
        p.err |= order == 3 && first_have != Some(p.text.contains_key(&lead)) && !p.err;
        p.err |= order == 4 && first_text.as_ref() != Some(&p.text.get(&lead).cloned()) && !p.err;
        *PARTS.get() = p;
        answer(c);
    });
}

fn probe_parts(parts: &[Part], boundary: &str, ct: &str, style: usize) -> Result<(), Verdict> {
    probe_body(parts, multipart(parts, boundary, style), ct)
}
fn probe_body(parts: &[Part], body: Vec<u8>, ct: &str) -> Result<(), Verdict> {
    let mut rq = format!("POST /f HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", ct, body.len()).into_bytes();
    rq.extend(&body);
    PARTS.get().n = 0;
    *ORDER.get() = order_of(body.len() + parts.len());
    *PN.get() = parts.iter().map(|p| p.name.to_string()).collect();
    let rs = match once(&rq) {
        Ok(x) => x,
        Err(e) => return fail("no-answer", format!("body {:?}: {} {:?}", show(&body), e, panics())),
    };
    let mut want = Parts { n: 1, ..Parts::default() };
    for p in parts {
        match p.file {
            None => {
                want.text.insert(p.name.into(), String::from_utf8(p.content.clone()).unwrap());
            }
            Some(f) => {
                want.files.insert(p.name.into(), (f.into(), p.content.clone(), p.content.len()));
            }
        }
    }
    want.count = want.text.len();
    if rs.status != 200 || *PARTS.get() != want {
        return fail("parts", format!("type {:?} body {:?}: expected {:?}, status {} handler sees {:?}", ct, show(&body), want, rs.status, PARTS.get()));
    }
    Ok(())
}

pub fn p19(r: &mut Run) {
    r.assume("well-formed bodies: CRLF line ends, no preamble, field names distinct within texts and within files, contents never containing CRLF '--' boundary or starting with it (RFC 2046); text contents valid UTF-8");
    // every content over an alphabet of the delicate bytes, as the first / last / only part
    let alpha: [&[u8]; 9] = [b"\r", b"\n", b"-", b"B", b"--B", b"x", b"\0", b"\xff", b"\""];
    let depth = if r.thorough { 7 } else { 5 };
    let n = nstr(alpha.len(), depth);
    let legal = |c: &[u8], b: &str| {
        let mut full = b"\r\n".to_vec();
        full.extend(c);
        let d = format!("\r\n--{}", b);
        !full.windows(d.len()).any(|w| w == d.as_bytes())
    };
    r.enumerate("contents", n * 3, 2048, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let c = catb(&alpha, &nth(alpha.len(), it / 3));
            if !legal(&c, "B") {
                continue;
            }
            let style = (it / 3) as usize;
            let fixed = Part { file: Some("g.bin"), name: "b", content: b"\r\n--\r\n".to_vec() };
            let fixed_t = Part { file: None, name: "b", content: b"--\r\n-".to_vec() };
            let text = String::from_utf8(c.clone()).is_ok() && it % 2 == 0;
            let p = Part { file: if text { None } else { Some("f.txt") }, name: "a", content: c };
            let l = match it % 3 {
                0 => vec![p],
                1 => vec![p, fixed],
                _ => vec![fixed_t, p],
            };
            probe_parts(&l, "B", "multipart/form-data; boundary=B", style)?;
        }
        no_panics()?;
        Ok(0)
    });
    // every pair of bytes as a content, every pair of characters in names
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    r.enumerate("byte-pairs", 65536, 2048, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let c = vec![it as u8, (it >> 8) as u8];
            let text = std::str::from_utf8(&c).is_ok();
            let mut l = vec![Part { file: Some("f.bin"), name: "a", content: c.clone() }];
            if text {
                l.insert((it % 2) as usize, Part { file: None, name: "b", content: c });
            }
            probe_parts(&l, "B", "multipart/form-data; boundary=B", it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    r.enumerate("names", n_pairs(3), 2048, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 3);
            if format!("{}{}", c, d).contains(|x| x == '"' || x == '\\') {
                continue; // how these are quoted differs between clients
            }
            let n = leak(format!("{}{}", c, d));
            let l = match t {
                0 => vec![Part { file: None, name: n, content: b"v".to_vec() }, Part { file: Some("f"), name: "b", content: b"w".to_vec() }],
                1 => vec![Part { file: Some("f"), name: n, content: b"v".to_vec() }, Part { file: None, name: "b", content: b"w".to_vec() }],
                _ => vec![Part { file: Some(n), name: "a", content: b"v".to_vec() }, Part { file: None, name: "b", content: b"w".to_vec() }],
            };
            probe_parts(&l, "B", "multipart/form-data; boundary=B", it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    let cs: Vec<usize> = counts(r.thorough).into_iter().filter(|n| *n <= 500 && *n > 0).collect();
    r.enumerate("counts", cs.len() as u64 * 4, 16, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 4];
            let l: Vec<Part> = match it % 4 {
                0 => (0..n).map(|i| Part { file: None, name: leak(format!("n{}", i)), content: format!("v{}", n - i).into_bytes() }).collect(),
                1 => (0..n).map(|i| Part { file: Some(leak(format!("f{}", i))), name: leak(format!("n{}", i)), content: vec![i as u8; i % 7] }).collect(),
                2 => (0..n).map(|i| Part { file: if i % 3 == 0 { Some("f") } else { None }, name: leak(format!("n{}", i)), content: b"-".repeat(i % 5) }).collect(),
                _ => vec![Part { file: None, name: leak("n".repeat(n)), content: b"v".to_vec() }, Part { file: Some(leak("f".repeat(n))), name: "a", content: b"w".to_vec() }],
            };
            probe_parts(&l, "B", "multipart/form-data; boundary=B", it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    // every list of up to 4 parts
    let pool: Vec<Part> = {
        let mut v = vec![];
        for name in ["a", "b", "c d"] {
            for file in [None, Some("f"), Some("a b.txt"), Some("x;y=z.bin")] {
                for c in [&b""[..], b"v", b"1\r\n2"] {
                    if file.is_none() || c.len() != 1 {
                        v.push(Part { file, name, content: c.to_vec() });
                    }
                }
            }
        }
        v
    };
    let k = pool.len() as u64;
    let len = if r.thorough { 4 } else { 3 };
    r.enumerate("lists", nstr(pool.len(), len), 2048, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let l: Vec<Part> = nth(k as usize, it).into_iter().map(|i| pool[i].clone()).collect();
            if l.is_empty() || (0..l.len()).any(|i| (0..i).any(|j| l[i].name == l[j].name && l[i].file.is_some() == l[j].file.is_some())) {
                continue;
            }
            probe_parts(&l, "----x1", "multipart/form-data; boundary=----x1", it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    // boundaries and ways to write the content type
    let bounds = ["B", "-", "--", "a b", "0123456789012345678901234567890123456789012345678901234567890123456789", "'()+_,-./:=?", "----WebKitFormBoundaryAbC"];
    r.enumerate("boundaries", (bounds.len() * 5 * 4) as u64, 64, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let b = bounds[it as usize % bounds.len()];
            let w = it as usize / bounds.len() % 5;
            if w != 1 && b.contains(|c| c == ' ' || c == ',' || c == '(' || c == '?') {
                continue; // these must be quoted
            }
            let ct = match w {
                0 => format!("multipart/form-data; boundary={}", b),
                1 => format!("multipart/form-data; boundary=\"{}\"", b),
                2 => format!("multipart/form-data;boundary={}", b),
                3 => format!("Multipart/Form-Data; Boundary={}", b),
                _ => format!("multipart/form-data; charset=utf-8; boundary={}", b),
            };
            let cs: [Vec<u8>; 4] = [b"v".to_vec(), format!("--{}x", &b[..b.len() - 1]).into_bytes(), format!("\r\n-{}\r\n{}--", b, b).into_bytes(), b"\r\n".to_vec()];
            let c = cs[it as usize / bounds.len() / 5].clone();
            if !legal(&c, b) {
                continue;
            }
            probe_parts(&[Part { file: None, name: "a", content: c.clone() }, Part { file: Some("f"), name: "b", content: c }], b, &ct, it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    // ways to write a part's head
    const CD: [&str; 3] = ["Content-Disposition", "content-disposition", "CONTENT-DISPOSITION"];
    const COLON: [&str; 3] = [": ", ":", ":  "];
    const SEP: [&str; 4] = ["; ", ";", ";  ", " ; "];
    const NM: [&str; 7] = ["a", "c d", "a;b", "a=b", "filename=x", "; name=b", "a:b"];
    const XP: [&str; 4] = ["", "x=y", "x=\"y; name=no\"", "filename*=UTF-8''no.txt"];
    const OTHER: [&str; 5] = ["", "Content-Type: text/plain\r\n", "X-Name: form-data; name=\"no\"; filename=\"no\"\r\n", "Content-Length: 1\r\n", "X:\r\nContent-Disposition-X: form-data; name=\"no\"\r\n"];
    let dims = [3u64, 3, 4, 7, 4, 5, 3, 3];
    r.enumerate("part-heads", dims.iter().product(), 2048, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let mut i = it;
            let mut d = |k: usize| {
                let x = (i % dims[k]) as usize;
                i /= dims[k];
                x
            };
            let (cd, colon, sep, nm, xp, other, kind, place) = (CD[d(0)], COLON[d(1)], SEP[d(2)], NM[d(3)], XP[d(4)], OTHER[d(5)], d(6), d(7));
            let mut ps = vec![format!("name=\"{}\"", nm)];
            match kind {
                0 => {}
                1 => ps.push("filename=\"n;=.x\"".into()),
                _ => ps.insert(0, "filename=\"n;=.x\"".into()),
            }
            if !xp.is_empty() {
                ps.insert(place.min(ps.len()), xp.into());
            } else if place > 0 && other.is_empty() {
                continue;
            }
            let head = format!("{}{}form-data{}{}\r\n", cd, colon, sep, ps.join(sep));
            let head = if place == 0 { head + other } else { other.to_string() + &head };
            let p = Part { file: if kind > 0 { Some("n;=.x") } else { None }, name: nm, content: b"v\r\nw".to_vec() };
            let q = Part { file: None, name: "f", content: b"2".to_vec() };
            let mut body = format!("--B\r\n{}\r\nv\r\nw\r\n", head).into_bytes();
            body.extend(multipart(&[q.clone()], "B", it as usize));
            probe_body(&[p, q], body, "multipart/form-data; boundary=B")?;
        }
        no_panics()?;
        Ok(0)
    });
    // sizes around the read buffer
    let step = if r.thorough { 1 } else { 7 };
    r.enumerate("sizes", 2300 / step, 128, opts(), |lo, hi| {
        multipart_handler();
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let c: Vec<u8> = (0..it * step).map(|i| (i * 7) as u8).collect();
            probe_parts(&[Part { file: Some("f"), name: "b", content: c }, Part { file: None, name: "a", content: b"end".to_vec() }], "B", "multipart/form-data; boundary=B", it as usize)?;
        }
        no_panics()?;
        Ok(0)
    });
    // anything else: no panic, at most one answer, nothing invented
    let tok: [&[u8]; 9] = [
        b"--B", b"--B--", b"\r\n", b"\n", b"Content-Disposition: form-data; name=\"a\"", b"; filename=\"f\"", b"Content-Disposition: form-data", b"x", b"Content-Type: text/plain",
    ];
    let d = if r.thorough { 7 } else { 6 };
    for (nm, pre) in [("malformed", &b""[..]), ("malformed-part", b"--B\r\n"), ("malformed-text", b"--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n")] {
        let d = if pre.is_empty() { d } else { d - 1 };
        r.enumerate(nm, nstr(tok.len(), d), 2048, opts(), |lo, hi| {
            multipart_handler();
            let s = new_server(1);
            all_methods(&s, "/f");
            start(&s);
            for it in lo..hi {
                at_item(it);
                let mut body = pre.to_vec();
                body.extend(catb(&tok, &nth(tok.len(), it)));
                let mut rq = format!("POST /f HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
                rq.extend(&body);
                *PARTS.get() = Parts::default();
                match once(&rq) {
                    Ok(x) if x.status == 200 || x.status == 400 => {}
                    x => return fail("malformed", format!("body {:?}: {:?} {:?}", show(&body), x, panics())),
                }
                let inside = |v: &[u8]| v.is_empty() || body.windows(v.len()).any(|w| w == v);
                let p = PARTS.get();
                // a content stands between an empty line and a line that starts with the boundary
                let whole = |v: &[u8]| {
                    (0..=body.len().saturating_sub(v.len())).any(|i| {
                        let (a, b) = (&body[..i], &body[i + v.len()..]);
                        body[i..].starts_with(v) && (a.ends_with(b"\n\r\n") || a.ends_with(b"\n\n")) && (b.starts_with(b"\r\n--B") || b.starts_with(b"\n--B"))
                    })
                };
                if p.text.values().any(|v| !whole(v.as_bytes())) || p.files.values().any(|v| !inside(v.0.as_bytes()) || !whole(&v.1)) {
                    return fail("invented", format!("body {:?}: handler sees {:?}", show(&body), p));
                }
            }
            no_panics()?;
            Ok(0)
        });
    }
    super::cross::requests(r, super::cross::Aspect::Files);
}

// ------------------------------------------------------------------ P20
static COOKIES: Cell<(usize, Vec<(String, String)>, Vec<(String, Option<String>)>)> = Cell::new((0, vec![], vec![]));

pub fn p20(r: &mut Run) {
    r.assume("one Cookie header; headers with an empty piece or an empty cookie name are not specified (only: no panic, one answer); values verbatim after removing the spaces around each pair");
    cookies(r, "wide", &["a", "b", "=", ";", " ", "\"", ","], if r.thorough { 8 } else { 7 });
    cookies(r, "pairs", &["a=", "b=", "x", "; ", ";", "=", "a", "1"], if r.thorough { 8 } else { 6 });
    cookies_of(r, "characters", n_pairs(5), |it| {
        let (c, d, t) = char_pair(it, 5);
        match t {
            0 => format!("a={}{}; b=2", c, d),
            1 => format!("{}={}", c, d),
            2 => format!("a{}{}=1; b=2", c, d),
            3 => format!("b=2; {}{}", c, d),
            _ => format!("b=2;{}a{}=1;c=3", c, d),
        }
    });
    let cs = counts(r.thorough);
    cookies_of(r, "counts", cs.len() as u64 * 5, |it| {
        let n = cs[it as usize / 5];
        match it % 5 {
            0 => (0..n).map(|i| format!("k{}=v{}", i, n - i)).collect::<Vec<_>>().join("; "),
            1 => (0..n).map(|i| format!("k{}=v{}", i % 3, i)).collect::<Vec<_>>().join(";"),
            2 => format!("{}=v; b=2", "k".repeat(n + 1)),
            3 => format!("a={}; b=2", "v=".repeat(n)),
            _ => format!("a=1;{}b=2{}", " ".repeat(n), " ".repeat(n)),
        }
    });
    super::cross::requests(r, super::cross::Aspect::Cookies);
}

fn cookies(r: &mut Run, name: &str, alpha: &[&str], depth: u32) {
    cookies_of(r, name, nstr(alpha.len(), depth), |it| cat(alpha, &nth(alpha.len(), it)))
}

fn cookies_of(r: &mut Run, name: &str, n: u64, header: impl Fn(u64) -> String) {
    r.enumerate(name, n, 2048, opts(), |lo, hi| {
        on_call(|c, _| {
            let l: Vec<(String, String)> = c.req_cookies().into_iter().map(|k| cookie_nv(&k)).collect();
            let g = l.iter().map(|x| x.0.clone()).chain(["a".to_string(), "zz".to_string()]).map(|k| (k.clone(), c.req_cookie_get(&k).map(|x| cookie_nv(&x).1))).collect();
            let n = COOKIES.get().0 + 1;
            *COOKIES.get() = (n, l, g);
            answer(c);
        });
        let s = new_server(1);
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let h = header(it);
            let pieces: Vec<&str> = h.split(';').map(|p| p.trim_matches(' ')).collect();
            let split: Vec<Option<(&str, &str)>> = pieces.iter().map(|p| p.split_once('=')).collect();
            // a name that ends, or a value that begins, with a space: spaces belong around pairs only
            if h.contains(" =") || h.contains("= ") {
                continue;
            }
            COOKIES.get().0 = 0;
            let rq = format!("GET /f HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", h);
            let rs = match once(rq.as_bytes()) {
                Ok(x) => x,
                Err(e) => return fail("no-answer", format!("Cookie {:?}: {} {:?}", h, e, panics())),
            };
            let (runs, seen, got) = COOKIES.get().clone();
            if pieces.iter().any(|p| p.is_empty() || p.starts_with('=')) {
                if !(rs.status == 200 && runs == 1 || rs.status == 400 && runs == 0) {
                    return fail("unspecified", format!("Cookie {:?}: status {} handler {}x", h, rs.status, runs));
                }
            } else if split.iter().any(|x| x.is_none()) {
                if rs.status != 400 || runs != 0 {
                    return fail("not-refused", format!("Cookie {:?}: status {} handler {}x sees {:?}", h, rs.status, runs, seen));
                }
            } else {
                let want: Vec<(String, String)> = split.iter().map(|x| x.unwrap()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
                if rs.status != 200 || runs != 1 || seen != want {
                    return fail("cookies", format!("Cookie {:?}: status {} handler {}x, expected {:?}, sees {:?}", h, rs.status, runs, want, seen));
                }
                for (k, v) in got {
                    if want.iter().find(|x| x.0 == k).map(|x| x.1.clone()) != v {
                        return fail("lookup", format!("Cookie {:?}: lookup of {:?} gives {:?}", h, k, v));
                    }
                }
            }
        }
        no_panics()?;
        Ok(0)
    });
}

pub fn cookie_nv(c: &starry::header::Cookie) -> (String, String) {
    // a handler reads a cookie through its text form
    let t = c.to_string();
    match t.split_once('=') {
        Some((k, v)) => (k.to_string(), v.to_string()),
        None => (format!("?{}", t), String::new()),
    }
}

// ------------------------------------------------------------------ P22
static CRED: Cell<(usize, Option<(String, String)>)> = Cell::new((0, None));

pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(v >> (18 - 6 * i) & 63) as usize] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    let b = s.as_bytes();
    for (i, c) in b.chunks(4).enumerate() {
        let last = (i + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut v = 0u32;
        for (j, x) in c.iter().enumerate() {
            let d = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                b'=' if j >= 4 - pad => 0,
                _ => return None,
            } as u32;
            v = v << 6 | d;
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        out.extend(&bytes[..3 - pad]);
    }
    if b64(&out) != s {
        return None; // not canonical
    }
    Some(out)
}

fn cred_server() -> HttpServer {
    on_call(|c, _| {
        let n = CRED.get().0 + 1;
        *CRED.get() = (n, c.req_userinfo().map(|u| (u.username(), u.password())));
        answer(c);
    });
    let s = new_server(1);
    all_methods(&s, "/f");
    start(&s);
    s
}

fn cred(header: Option<&str>) -> Result<(u32, usize, Option<(String, String)>), Verdict> {
    *CRED.get() = (0, None);
    let rq = match header {
        Some(h) => format!("GET /f HTTP/1.1\r\nHost: h\r\nAuthorization: {}\r\n\r\n", h),
        None => "GET /f HTTP/1.1\r\nHost: h\r\n\r\n".to_string(),
    };
    match once(rq.as_bytes()) {
        Ok(x) => {
            let (n, u) = CRED.get().clone();
            Ok((x.status, n, u))
        }
        Err(e) => match fail("no-answer", format!("Authorization {:?}: {} {:?}", header, e, panics())) {
            Err(v) => Err(v),
            Ok(()) => unreachable!(),
        },
    }
}

pub fn p22(r: &mut Run) {
    r.assume("user names and passwords are UTF-8 and the user name is not empty and has no colon; one Authorization header");
    let alpha = ["a", "B", ":", " ", "=", "é", "\0", "~"];
    let d = if r.thorough { 4 } else { 3 };
    let n = nstr(alpha.len(), d);
    r.enumerate("credentials", n * n, 4096, opts(), |lo, hi| {
        let _s = cred_server();
        for it in lo..hi {
            at_item(it);
            let (u, p) = (cat(&alpha, &nth(alpha.len(), it % n)), cat(&alpha, &nth(alpha.len(), it / n)));
            if u.is_empty() || u.contains(':') {
                continue;
            }
            let sch = ["Basic", "Basic", "basic", "BASIC"][it as usize % 4];
            let h = format!("{} {}", sch, b64(format!("{}:{}", u, p).as_bytes()));
            let got = cred(Some(&h))?;
            if got != (200, 1, Some((u.clone(), p.clone()))) {
                return fail("credentials", format!("Authorization {:?} is user {:?} password {:?}; got {:?}", h, u, p, got));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // every pair of ASCII characters, and every length
    r.enumerate("characters", 128 * 128 * 3 + 600, 2048, opts(), |lo, hi| {
        let _s = cred_server();
        for it in lo..hi {
            at_item(it);
            let (u, p) = if it < 128 * 128 * 3 {
                let (c, d) = ((it / 3 % 128) as u8 as char, (it / 3 / 128) as u8 as char);
                match it % 3 {
                    0 => (c.to_string(), d.to_string()),
                    1 => ("u".to_string(), format!("{}{}", c, d)),
                    _ => (format!("{}{}", c, d), "p".to_string()),
                }
            } else {
                let n = (it - 128 * 128 * 3) as usize;
                ("u".repeat(1 + n / 2), "p:".repeat(n - n / 2))
            };
            if u.contains(':') {
                continue;
            }
            let h = format!("Basic {}", b64(format!("{}:{}", u, p).as_bytes()));
            let got = cred(Some(&h))?;
            if got != (200, 1, Some((u.clone(), p.clone()))) {
                return fail("credentials", format!("Authorization {:?} is user {:?} password {:?}; got {:?}", h, u, p, got));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // raw header values
    let alpha = ["Q", "Og==", "Om", "Y6", "=", " ", ":", "é", "YTpi", "Basic ", "Digest "];
    let d = if r.thorough { 5 } else { 4 };
    for pre in ["Basic ", ""] {
        r.enumerate(if pre.is_empty() { "raw" } else { "undecodable" }, nstr(alpha.len(), d), 2048, opts(), |lo, hi| {
            let _s = cred_server();
            for it in lo..hi {
                at_item(it);
                let h = format!("{}{}", pre, cat(&alpha, &nth(alpha.len(), it)));
                let got = cred(Some(&h))?;
                let h = h.trim_start_matches(' ');
                match h.split_once(' ') {
                    Some((s, rest)) if s.eq_ignore_ascii_case("Basic") => {
                        let rest = rest.trim_matches(' ');
                        let dec = unb64(rest).and_then(|b| String::from_utf8(b).ok());
                        let want = dec.as_ref().and_then(|d| d.split_once(':'));
                        match want {
                            Some((u, p)) if !u.is_empty() => {
                                if got != (200, 1, Some((u.to_string(), p.to_string()))) {
                                    return fail("credentials", format!("Authorization {:?} is {:?}; got {:?}", h, want, got));
                                }
                            }
                            Some(_) => {} // empty user name: not specified
                            None => {
                                if got.0 != 400 || got.1 != 0 {
                                    return fail("undecodable", format!("Authorization {:?} must be refused with 400; got {:?}", h, got));
                                }
                            }
                        }
                    }
                    _ if h.trim_end().eq_ignore_ascii_case("Basic") => {
                        if got.0 != 400 || got.1 != 0 {
                            return fail("undecodable", format!("Authorization {:?} must be refused with 400; got {:?}", h, got));
                        }
                    }
                    _ => {
                        if got != (200, 1, None) {
                            return fail("other-scheme", format!("Authorization {:?} carries no Basic credentials; got {:?}", h, got));
                        }
                    }
                }
            }
            no_panics()?;
            Ok(0)
        });
    }
    r.enumerate("absent", 1, 1, opts(), |lo, _| {
        at_item(lo);
        let _s = cred_server();
        let got = cred(None)?;
        if got != (200, 1, None) {
            return fail("absent", format!("{:?}", got));
        }
        no_panics()?;
        Ok(0)
    });
    super::cross::requests(r, super::cross::Aspect::User);
}

// ------------------------------------------------------------------ P31
static WHO: Cell<Vec<(String, u16, bool)>> = Cell::new(vec![]);

fn ip_text(ip: u32) -> String {
    if net().v6 {
        v6_of(ip).to_string()
    } else {
        std::net::Ipv4Addr::from(ip).to_string()
    }
}

pub fn p31(r: &mut Run) {
    r.assume("up to 48 connections open at once, requests on them in every order");
    let who = || {
        on_call(|c, _| {
            let a = c.req_client_addr();
            WHO.get().push((a.host(), a.port(), c.req_is_web_socket()));
            answer(c);
        });
        let s = new_server(3);
        all_methods(&s, "/f");
        start(&s);
        s
    };
    let conn: Vec<Option<&str>> = vec![None, Some("Upgrade"), Some("upgrade"), Some("UPGRADE"), Some("keep-alive"), Some("close"), Some("Upgraded"), Some("Up-grade"), Some("")];
    let up: Vec<Option<&str>> = vec![None, Some("websocket"), Some("WebSocket"), Some("WEBSOCKET"), Some("h2c"), Some("websockets"), Some("web socket"), Some("")];
    let other: Vec<&str> = vec!["", "X-Upgrade: websocket\r\n", "Origin: upgrade\r\n"];
    let n = conn.len() * up.len() * other.len() * 4;
    r.enumerate("websocket", n as u64, 64, opts(), |lo, hi| {
        let _s = who();
        for it in lo..hi {
            at_item(it);
            let mut i = it as usize;
            let c = conn[i % conn.len()];
            i /= conn.len();
            let u = up[i % up.len()];
            i /= up.len();
            let o = other[i % other.len()];
            i /= other.len();
            let (kc, ku) = if i & 1 == 0 { ("Connection", "Upgrade") } else { ("connection", "upgrade") };
            let mut h = vec![];
            if let Some(c) = c {
                h.push(format!("{}: {}\r\n", kc, c));
            }
            if let Some(u) = u {
                h.push(format!("{}: {}\r\n", ku, u));
            }
            if i & 2 != 0 {
                h.reverse();
            }
            WHO.get().clear();
            let rq = format!("GET /f HTTP/1.1\r\nHost: h\r\n{}{}\r\n", o, h.concat());
            let mut cl = Cl::new();
            cl.send(rq.as_bytes());
            let rs = cl.next(2000);
            cl.p.close();
            if rs.is_err() {
                return fail("no-answer", format!("{:?}: {:?} {:?}", rq, rs, panics()));
            }
            let want = c.map_or(false, |x| x.eq_ignore_ascii_case("upgrade")) && u.map_or(false, |x| x.eq_ignore_ascii_case("websocket"));
            if WHO.get().len() != 1 || WHO.get()[0].2 != want {
                return fail("websocket", format!("request {:?}: handler sees {:?}, expected {}", rq, WHO.get(), want));
            }
        }
        no_panics()?;
        Ok(0)
    });
    // 3 peers, each sends 1-2 requests; every interleaving of their requests, connections open throughout
    let len = if r.thorough { 7 } else { 5 };
    let n = 3u64.pow(len);
    r.enumerate("peers", n * 6, 27, opts(), |lo, hi| {
        let _s = who();
        for it in lo..hi {
            at_item(it);
            net().v6 = it / 3 % 2 == 1;
            let ips: [(u32, u16); 3] = match it % 3 {
                0 => [(0x0A000001, 1000), (0x0A000002, 2000), (0xC0A80105, 65535)],
                1 => [(0x0A000001, 1000), (0x0A000001, 1001), (0x0A000001, 1002)],
                _ => [(0x01020304, 5), (0x04030201, 5), (0xFF000001, 1)],
            };
            let off = (it % 60_000) as u16;
            let ports: Vec<(u32, u16)> = ips.iter().map(|(a, b)| (*a, if it % 3 == 1 { 1000 + (b - 1000) + (off % 50_000) } else { *b })).collect();
            let mut cs: Vec<Cl> = ports.iter().map(|p| Cl::from(p.0, p.1)).collect();
            let mut k = it / 3;
            for _ in 0..len {
                let j = (k % 3) as usize;
                k /= 3;
                WHO.get().clear();
                let claim = ["", "X-Forwarded-For: 9.8.7.6\r\n", "X-Real-IP: 9.8.7.6\r\nVia: x\r\n", "Forwarded: for=9.8.7.6\r\nClient-IP: 9.8.7.6\r\n"][((it + k) % 4) as usize];
                cs[j].send(format!("GET /f HTTP/1.1\r\nHost: 9.8.7.6:80\r\n{}Connection: keep-alive\r\n\r\n", claim).as_bytes());
                let rs = cs[j].next(2000);
                let want = (ip_text(ports[j].0), ports[j].1, false);
                if rs.is_err() || *WHO.get() != vec![want.clone()] {
                    return fail("peer", format!("request from {:?}: handler sees {:?}, answer {:?}", want, WHO.get(), rs));
                }
            }
            for c in &cs {
                c.p.close();
            }
            settle(200);
        }
        no_panics()?;
        Ok(0)
    });
    // many connections at once, opened and used in different orders
    let (mn, mp) = if r.thorough { (48u64, 16u64) } else { (32, 8) };
    r.enumerate("many", mn * mp * 6, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (n, pool, way) = ((it % mn) as usize + 1, (it / mn % mp) as usize + 1, it / mn / mp % 3);
            net().v6 = it / mn / mp / 3 == 1;
            on_call(|c, _| {
                let a = c.req_client_addr();
                c.resp_body(format!("{}:{}", a.host(), a.port()).into_bytes());
                c.response();
            });
            let s = new_server(pool);
            all_methods(&s, "/f");
            start(&s);
            let who: Vec<(u32, u16)> = (0..n).map(|i| match way {
                0 => (0x0A000001 + i as u32, 1000),
                1 => (0x0A000001, 1000 + i as u16 * 1009),
                _ => (0x0A0000FE + (i as u32 * 0x01010101), 65535 - i as u16),
            }).collect();
            let mut cs: Vec<Cl> = who.iter().map(|p| Cl::from(p.0, p.1)).collect();
            let order: Vec<usize> = (0..n).map(|i| if way == 1 { n - 1 - i } else { i }).collect();
            for &i in &order {
                cs[i].send(b"GET /f HTTP/1.1\r\nHost: h\r\n\r\n");
            }
            for i in 0..n {
                let want = format!("{}:{}", ip_text(who[i].0), who[i].1);
                match cs[i].next(5000) {
                    Ok(r) if r.text() == want => {}
                    x => return fail("peer", format!("{} connections, {} workers: the handler of the connection from {} reads {:?}", n, pool, want, x.map(|r| r.text()))),
                }
            }
            no_panics()?;
        }
        Ok(0)
    });
    let _ = Peer::send;
    super::cross::requests(r, super::cross::Aspect::Caller);
}

// ------------------------------------------------------------------ P33
static HEADS: Cell<(usize, BTreeMap<String, Vec<String>>, Vec<(String, Option<String>)>)> = Cell::new((0, BTreeMap::new(), vec![]));
static ASK: Cell<Vec<String>> = Cell::new(vec![]);

fn heads_server() -> HttpServer {
    on_call(|c, _| {
        let n = HEADS.get().0 + 1;
        let m = c.req_header().map().into_iter().collect();
        let g = ASK.get().iter().map(|k| (k.clone(), c.req_header_get(k.as_str()))).collect();
        *HEADS.get() = (n, m, g);
        answer(c);
    });
    let s = new_server(1);
    all_methods(&s, "/f");
    start(&s);
    s
}

/// One request with the given header lines (without their line ends), in that order, after Host.
fn probe_heads(lines: &[String]) -> Result<(), Verdict> {
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    want.insert("Host".into(), vec!["h".into()]);
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            want.insert(k.to_string(), vec![v.trim_matches(|c| c == ' ' || c == '\t').to_string()]);
        }
    }
    *ASK.get() = want.keys().cloned().chain(["zz".to_string(), String::new()]).collect();
    HEADS.get().0 = 0;
    let rq = format!("GET /f HTTP/1.1\r\nHost: h\r\n{}\r\n", lines.iter().map(|l| format!("{}\r\n", l)).collect::<String>());
    let text = || if rq.len() > 2000 { format!("{:?}... of {} lines, {} bytes", &lines[..lines.len().min(2)].iter().map(|l| l.chars().take(80).collect::<String>()).collect::<Vec<_>>(), lines.len(), rq.len()) } else { format!("{:?}", rq) };
    let rs = match once(rq.as_bytes()) {
        Ok(x) => x,
        Err(e) => return fail("no-answer", format!("{}: {} {:?}", text(), e, panics())),
    };
    let (runs, seen, got) = HEADS.get().clone();
    if rs.status != 200 || runs != 1 {
        return fail("not-served", format!("{}: status {} handler {}x", text(), rs.status, runs));
    }
    if seen != want {
        let d: Vec<_> = want.iter().filter(|(k, v)| seen.get(*k) != Some(*v)).map(|(k, v)| format!("{:?}: expected {:?}, sees {:?}", k.chars().take(60).collect::<String>(), v, seen.get(k))).chain(seen.keys().filter(|k| !want.contains_key(*k)).map(|k| format!("sees {:?} too", k))).take(4).map(|x| x.chars().take(300).collect::<String>()).collect();
        return fail("headers", format!("{}: {:?}", text(), d));
    }
    for (k, v) in got {
        if v != want.get(&k).map(|x| x[0].clone()) {
            return fail("lookup", format!("{}: lookup of {:?} gives {:?}", text(), k, v));
        }
    }
    Ok(())
}

/// A header name may not contain these, or the library gives the name a meaning of its own.
fn plain_name(n: &str) -> bool {
    !n.is_empty() && n.is_ascii() && !n.contains(|c: char| c.is_ascii_control() || "()<>@,;:\\\"/[]?={} \t".contains(c))
}

pub fn p33(r: &mut Run) {
    r.assume("header names distinct without regard to letter case; header lines end in CR LF and hold no other control character than the tab");
    let alpha = ["a", "B", ":", " ", "\t", "=", ";", ",", "\"", "é"];
    let depth = if r.thorough { 6 } else { 5 };
    r.enumerate("values", nstr(alpha.len(), depth) * 2, 4096, opts(), |lo, hi| {
        let _s = heads_server();
        for it in lo..hi {
            at_item(it);
            let v = cat(&alpha, &nth(alpha.len(), it / 2));
            let l = if it % 2 == 0 { vec![format!("X-A:{}", v), "X-B: 2".to_string()] } else { vec!["X-A: 1".to_string(), format!("X-B: {}", v)] };
            probe_heads(&l)?;
        }
        no_panics()?;
        Ok(0)
    });
    // whole header sections: each line one of these, every sequence of them
    let lines = ["X-A: 1", "X-B:2", "X-C: a: b:c", "no-colon", "X-D:", "X-E: \t x y \t", "x-f: ?=&#%41", "X:Y", "a: =", "Accept: */*", "Cookie: k=v", "Referer: http://u:p@h:1/a?b#c", "User-Agent: Mozilla/5.0 (X; Y) Z/1"];
    let len = if r.thorough { 6 } else { 5 };
    r.enumerate("sections", nstr(lines.len(), len), 4096, opts(), |lo, hi| {
        let _s = heads_server();
        for it in lo..hi {
            at_item(it);
            let ix = nth(lines.len(), it);
            if ix.iter().enumerate().any(|(i, x)| ix[..i].contains(x)) {
                continue;
            }
            probe_heads(&ix.iter().map(|&i| lines[i].to_string()).collect::<Vec<_>>())?;
        }
        no_panics()?;
        Ok(0)
    });
    r.enumerate("characters", n_pairs(5), 4096, opts(), |lo, hi| {
        let _s = heads_server();
        for it in lo..hi {
            at_item(it);
            let (c, d, t) = char_pair(it, 5);
            let (n, v) = match t {
                0 => (format!("{}{}", c, d), "v".to_string()),
                1 => (format!("X{}y{}", c, d), "v".to_string()),
                2 => ("X-A".to_string(), format!("{}{}", c, d)),
                3 => ("X-A".to_string(), format!("v{} {}w", c, d)),
                _ => (format!("{}x", c), format!("y{}", d)),
            };
            if plain_name(&n) {
                probe_heads(&["X-First: 1".to_string(), format!("{}: {}", n, v), "X-Last: 2".to_string()])?;
            }
        }
        no_panics()?;
        Ok(0)
    });
    let cs = counts(r.thorough);
    r.enumerate("counts", cs.len() as u64 * 6, 64, opts(), |lo, hi| {
        let _s = heads_server();
        for it in lo..hi {
            at_item(it);
            let n = cs[it as usize / 6];
            let l = match it % 6 {
                0 => (0..n).map(|i| format!("X-{}: v{}", i, n - i)).collect(),
                1 => vec!["X-A: 1".to_string(), format!("{}: v", "n".repeat(n + 1)), "X-B: 2".to_string()],
                2 => vec!["X-A: 1".to_string(), format!("X-N: {}", "v".repeat(n)), "X-B: 2".to_string()],
                3 => vec!["X-A: 1".to_string(), format!("X-N:{}v{}", " ".repeat(n), "\t ".repeat(n)), "X-B: 2".to_string()],
                4 => vec!["X-A: 1".to_string(), format!("X-N: {}", "a: b;".repeat(n)), "X-B: 2".to_string()],
                _ => (0..n).map(|i| if i % 2 == 0 { format!("line {}", i) } else { format!("X-{}: {}", i, "w".repeat(i)) }).collect(),
            };
            probe_heads(&l)?;
        }
        no_panics()?;
        Ok(0)
    });
    // the headers the server gives a meaning to, in every spelling of their names and with blanks around their values
    let known: Vec<(&str, &str)> = vec![("Host", "h"), ("Content-Length", "12"), ("Content-Type", "application/x-www-form-urlencoded"), ("Cookie", "ck=cv"), ("Connection", "keep-alive"), ("Accept-Encoding", "gzip"), ("Authorization", "Basic dTpw"), ("Upgrade", "websocket")];
    let blanks = [("", ""), (" ", ""), ("  ", ""), ("\t", ""), ("", " "), (" ", " "), (" ", "\t"), (" \t ", " \t "), ("", "\t\t")];
    let mut items: Vec<(usize, u64, usize)> = vec![];
    for (i, (n, _)) in known.iter().enumerate() {
        let letters = n.chars().filter(|c| c.is_ascii_alphabetic()).count() as u32;
        for m in 0..1u64 << letters {
            items.push((i, m, 1));
        }
        for b in 0..blanks.len() {
            for m in [0, (1 << letters) - 1, 1] {
                items.push((i, m, b));
            }
        }
    }
    let items = &items;
    r.enumerate("spellings", items.len() as u64, 1024, opts(), |lo, hi| {
        on_call(|c, _| {
            let ws = c.req_is_web_socket();
            let a = c.req_form("fa").ok().flatten();
            let ck = c.req_cookie_get("ck").map(|x| cookie_nv(&x).1);
            let u = c.req_userinfo().is_some();
            *SPELL.get() = Some((ws, a, ck, u));
            c.resp_body(vec![b'z'; 500]);
            c.response();
        });
        let mut s = new_server(1);
        s.set_compress();
        all_methods(&s, "/f");
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (i, m, b) = items[it as usize];
            let spell = |n: &str| {
                let mut k = 0;
                n.chars().map(|c| if c.is_ascii_alphabetic() { k += 1; if m >> (k - 1) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect::<String>()
            };
            let ws = known[i].0 == "Upgrade";
            let mut h = String::new();
            for (j, (n, v)) in known.iter().enumerate() {
                let (mut n, mut v) = (n.to_string(), v.to_string());
                if !ws && n == "Upgrade" {
                    continue;
                }
                if ws && n == "Connection" {
                    v = "Upgrade".into();
                }
                let mut w = (" ", "");
                if i == j {
                    n = spell(&n);
                    w = blanks[b];
                }
                h.push_str(&format!("{}:{}{}{}\r\n", n, w.0, v, w.1));
            }
            *SPELL.get() = None;
            let rq = format!("POST /f HTTP/1.1\r\n{}\r\nfa=1&fb=2345", h);
            let mut cl = Cl::new();
            cl.send(rq.as_bytes());
            let rs = match cl.next(2000) {
                Ok(x) => x,
                Err(e) => return fail("no-answer", format!("{:?}: {} {:?}", rq, e, panics())),
            };
            let want = Some((ws, Some("1".to_string()), Some("cv".to_string()), true));
            if rs.status != 200 || *SPELL.get() != want {
                return fail("spelling", format!("{:?}: status {}, handler reads (websocket, form field, cookie, credentials) {:?}, expected {:?}", rq, rs.status, SPELL.get(), want));
            }
            if rs.get("Content-Encoding") != Some("gzip") {
                return fail("spelling", format!("{:?}: the answer's Content-Encoding is {:?}", rq, rs.get("Content-Encoding")));
            }
            if !ws {
                cl.send(b"GET /f HTTP/1.1\r\nHost: h\r\n\r\n");
                if let Err(e) = cl.next(2000) {
                    return fail("spelling", format!("{:?}: the connection was not kept open: {}", rq, e));
                }
            }
            cl.p.close();
        }
        no_panics()?;
        Ok(0)
    });
    super::cross::requests(r, super::cross::Aspect::Headers);
}
static SPELL: Cell<Option<(bool, Option<String>, Option<String>, bool)>> = Cell::new(None);

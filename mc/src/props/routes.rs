//! P05-P07: routing, path parameters, filters. All route sets up to a size x all request paths up to a depth.
use super::req::{nstr, nth};
use crate::explore::*;
use crate::http::*;
use crate::rt::*;
use crate::run::Run;
use starry::{Extend, HttpServer, Limit};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Call {
    tag: Tag,
    fields: BTreeMap<String, String>,
    count: usize,
    path: String,
}
static CALLS: Cell<Vec<Call>> = Cell::new(vec![]);
const NAMES: [&str; 6] = ["x", "y", "z", "w", "", "?"];

fn record_calls() {
    on_call(|c, tag| {
        let mut fields = BTreeMap::new();
        for n in NAMES {
            if let Some(v) = c.req_field(n) {
                fields.insert(n.to_string(), v);
            }
            if c.req_have_field(n) != c.req_field(n).is_some() {
                fields.insert(format!("have-{}", n), "inconsistent".into());
            }
        }
        CALLS.get().push(Call { tag, fields, count: c.req_count_fields(), path: c.req_path() });
        if let Tag::H(n) = tag {
            c.resp_body(format!("h{}", n).into_bytes());
            c.response();
        }
    });
}

fn segs(p: &str) -> Vec<&str> {
    p.split('/').skip(1).collect()
}
fn shape(p: &str) -> Vec<String> {
    segs(p).iter().map(|s| if s.starts_with(':') { ":".to_string() } else { s.to_string() }).collect()
}

/// The specification of dispatch: index of the route that must run, with its parameters.
fn expect(routes: &[&str], path: &str) -> Option<(usize, BTreeMap<String, String>)> {
    let want = segs(path);
    let shapes: Vec<Vec<String>> = routes.iter().map(|r| shape(r)).collect();
    let mut best: Option<(Vec<usize>, usize)> = None;
    for (i, s) in shapes.iter().enumerate() {
        if s.len() != want.len() || !s.iter().zip(&want).all(|(a, b)| a == ":" || a == b) {
            continue;
        }
        // priority at each level: when was this alternative (shape prefix) first registered
        let key: Vec<usize> = (1..=s.len()).map(|k| shapes.iter().position(|t| t.len() >= k && t[..k] == s[..k]).unwrap()).collect();
        if best.as_ref().map_or(true, |(b, _)| key < *b) {
            best = Some((key, i));
        }
    }
    best.map(|(_, i)| {
        let f = segs(routes[i]).iter().zip(&want).filter(|(a, _)| a.starts_with(':')).map(|(a, b)| (a[1..].to_string(), b.to_string())).collect();
        (i, f)
    })
}

fn words(alpha: &[&str], depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..depth {
        let mut next = vec![];
        for c in &cur {
            for a in alpha {
                next.push(format!("{}/{}", c, a));
            }
        }
        out.extend(next.clone());
        cur = next;
    }
    out
}

/// Patterns whose parameter names are distinct (one name twice has no defined value).
fn distinct(v: Vec<String>) -> Vec<String> {
    v.into_iter()
        .filter(|p| {
            let n: Vec<&str> = segs(p).into_iter().filter(|s| s.starts_with(':')).collect();
            n.iter().enumerate().all(|(i, a)| !n[..i].contains(a))
        })
        .collect()
}

/// Send one request and compare with the specification. `fields`: compare parameters too (P06).
fn probe(routes: &[&str], path: &str, target: &str, fields: bool) -> Result<(), Verdict> {
    probe_m(routes, "GET", path, target, fields)
}
fn probe_m(routes: &[&str], method: &str, path: &str, target: &str, fields: bool) -> Result<(), Verdict> {
    CALLS.get().clear();
    let r = match once(&req(method, target, &[], b"")) {
        Ok(r) => r,
        Err(e) => return fail("no-answer", format!("routes {:?} target {:?}: {} {:?}", routes, target, e, panics())),
    };
    let calls = CALLS.get().clone();
    match expect(routes, path) {
        None => {
            if r.status != 404 || !calls.is_empty() {
                return fail("not-404", format!("routes {:?} target {:?}: nothing matches, got {} and calls {:?}", routes, target, r.status, calls));
            }
        }
        Some((i, f)) => {
            if r.status != 200 || calls.len() != 1 || calls[0].tag != Tag::H(i) || r.text() != format!("h{}", i) {
                return fail("wrong-handler", format!("routes {:?} target {:?}: expected handler {} once, got {} {:?} calls {:?}", routes, target, i, r.status, r.text(), calls));
            }
            if calls[0].path != path {
                return fail("wrong-path", format!("target {:?}: handler sees path {:?}", target, calls[0].path));
            }
            if fields && (calls[0].fields != f || calls[0].count != f.len()) {
                return fail("wrong-params", format!("routes {:?} target {:?}: expected parameters {:?}, handler sees {:?} (count {})", routes, target, f, calls[0].fields, calls[0].count));
            }
        }
    }
    no_panics()
}

/// Distinct-shape ordered sets of `k` patterns, by index.
fn set_of(pats: &[String], k: usize, mut i: u64) -> Option<Vec<&str>> {
    let n = pats.len() as u64;
    let mut v: Vec<&str> = vec![];
    for _ in 0..k {
        let p = &pats[(i % n) as usize];
        i /= n;
        if v.iter().any(|q| shape(q) == shape(p)) {
            return None;
        }
        v.push(p);
    }
    Some(v)
}

fn sets(r: &mut Run, name: &str, pats: Vec<String>, paths: Vec<String>, k: usize, fields: bool, grouped: bool) {
    let n = (pats.len() as u64).pow(k as u32);
    let o = Opts { steps: u64::MAX / 2, secs: 600, hang_secs: 60, ..Opts::default() };
    r.enumerate(name, n, if grouped { 96 } else { 4 }, o, |lo, hi| {
        record_calls();
        let mut started = false;
        let mut s = new_server(1);
        if grouped {
            start(&s);
            started = true;
        }
        for it in lo..hi {
            at_item(it);
            let set = match set_of(&pats, k, it) {
                Some(s) => s,
                None => continue,
            };
            let g = if grouped { format!("/g{}", it) } else { String::new() };
            if !grouped {
                s = new_server(1);
            }
            let ro = s.router(&g);
            let full: Vec<String> = set.iter().map(|p| format!("{}{}", g, p)).collect();
            for (i, p) in set.iter().enumerate() {
                ro.get(p, HS[i]);
            }
            if !grouped {
                start_on(&s, PORT + (it - lo) as u16);
            }
            let refs: Vec<&str> = full.iter().map(|x| x.as_str()).collect();
            for p in &paths {
                let t = format!("{}{}", g, p);
                if grouped {
                    probe(&refs, &t, &t, fields)?;
                } else {
                    set_port(PORT + (it - lo) as u16);
                    probe(&refs, &t, &t, fields)?;
                }
            }
        }
        let _ = started;
        Ok(0)
    });
}

pub(super) const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

/// Register through the method's own function (the router's type has no public name).
macro_rules! add {
    ($g:expr, $m:expr, $p:expr, $h:expr, $e:expr) => {{
        let (m, p, h, e): (usize, &str, Handler, Option<Extend>) = ($m, $p, $h, $e);
        match (m, e) {
            (0, None) => $g.option(p, h),
            (1, None) => $g.get(p, h),
            (2, None) => $g.post(p, h),
            (3, None) => $g.put(p, h),
            (4, None) => $g.delete(p, h),
            (5, None) => $g.head(p, h),
            (6, None) => $g.trace(p, h),
            (7, None) => $g.connect(p, h),
            (8, None) => $g.patch(p, h),
            (9, None) => $g.link(p, h),
            (10, None) => $g.unlink(p, h),
            (_, None) => $g.pri(p, h),
            (0, Some(e)) => $g.option_wf(p, h, e),
            (1, Some(e)) => $g.get_wf(p, h, e),
            (2, Some(e)) => $g.post_wf(p, h, e),
            (3, Some(e)) => $g.put_wf(p, h, e),
            (4, Some(e)) => $g.delete_wf(p, h, e),
            (5, Some(e)) => $g.head_wf(p, h, e),
            (6, Some(e)) => $g.trace_wf(p, h, e),
            (7, Some(e)) => $g.connect_wf(p, h, e),
            (8, Some(e)) => $g.patch_wf(p, h, e),
            (9, Some(e)) => $g.link_wf(p, h, e),
            (10, Some(e)) => $g.unlink_wf(p, h, e),
            (_, Some(e)) => $g.pri_wf(p, h, e),
        }
    }};
}
pub(super) use add;

/// Every method reaches only its own routes.
fn methods(r: &mut Run) {
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    // item: bit set of registered methods is one of: a single method, or all but one
    r.enumerate("methods", 24 * 4, 1, o, |lo, hi| {
        record_calls();
        for it in lo..hi {
            at_item(it);
            let s = new_server(1);
            // with and without extensions of the group and of the route
            let g = if it / 48 == 1 { s.router_wf("/m", Extend::e1(vec![])) } else { s.router("/m") };
            let wf = it / 24 % 2 == 1;
            let it = it % 24;
            let on = |m: usize| if it < 12 { m == it as usize } else { m != (it - 12) as usize };
            for m in 0..12 {
                if on(m) {
                    add!(g, m, "/a", HS[m], if wf { Some(Extend::e1(vec![])) } else { None });
                }
            }
            start(&s);
            for m in 0..12 {
                CALLS.get().clear();
                let rs = match once(&req(METHODS[m], "/m/a", &[], b"")) {
                    Ok(x) => x,
                    Err(e) => return fail("no-answer", format!("{}: {}", METHODS[m], e)),
                };
                let calls = CALLS.get().clone();
                if on(m) {
                    if rs.status != 200 || calls.len() != 1 || calls[0].tag != Tag::H(m) {
                        return fail("wrong-handler", format!("{} /m/a: {} {:?}", METHODS[m], rs.status, calls));
                    }
                } else if rs.status != 404 || !calls.is_empty() {
                    return fail("not-404", format!("{} /m/a: {} {:?}", METHODS[m], rs.status, calls));
                }
            }
            no_panics()?;
        }
        Ok(0)
    });
}

/// Registration accepts exactly the sets without two routes of one method and shape.
fn registration(r: &mut Run, pats: Vec<String>) {
    let mut all = pats;
    all.extend(["a", ":x", "", "a/b", "x/"].iter().map(|s| s.to_string()));
    let n = (all.len() * all.len()) as u64;
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    r.enumerate("registration", n * 2, 64, o, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let two_methods = it >= n;
            let i = it % n;
            let (p, q) = (&all[(i as usize) % all.len()], &all[(i as usize) / all.len()]);
            let s = HttpServer::new();
            let g = s.router("");
            let reg = |p: &str, post: bool| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if post { g.post(p, HS[0]) } else { g.get(p, HS[0]) })).is_ok()
            };
            let a = reg(p, false);
            if a != p.starts_with('/') {
                return fail("registration", format!("registering {:?}: accepted={}", p, a));
            }
            if !a {
                continue;
            }
            let b = reg(q, two_methods);
            let want = q.starts_with('/') && (two_methods || shape(p) != shape(q));
            if b != want {
                return fail("registration", format!("registering {:?} then {:?} (methods differ: {}): accepted={}", p, q, two_methods, b));
            }
        }
        Ok(0)
    });
}

/// Request targets of unusual form: each is answered by the matching route or 404.
fn odd_targets(r: &mut Run) {
    let alpha = ["/", "a", "?", "=", "&", ":x", "."];
    let depth = if r.thorough { 6 } else { 4 };
    let n = (0..=depth).map(|d| (alpha.len() as u64).pow(d)).sum::<u64>();
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    r.enumerate("odd-targets", n, 64, o, |lo, hi| {
        record_calls();
        let s = new_server(1);
        let g = s.router("");
        let routes = ["/a", "/a/:x", "/", "/:x/:y/a"];
        for (i, p) in routes.iter().enumerate() {
            g.get(p, HS[i]);
        }
        start(&s);
        for it in lo..hi {
            at_item(it);
            let mut k = it;
            let mut d = 0;
            while k >= (alpha.len() as u64).pow(d) {
                k -= (alpha.len() as u64).pow(d);
                d += 1;
            }
            let mut t = String::new();
            for _ in 0..d {
                t.push_str(alpha[(k % alpha.len() as u64) as usize]);
                k /= alpha.len() as u64;
            }
            let path = t.split('?').next().unwrap().to_string();
            if path.starts_with('/') {
                probe(&routes, &path, &t, true)?;
            } else {
                // not an origin-form target: no route can match
                CALLS.get().clear();
                match once(&get(&t)) {
                    Ok(r) if (r.status == 404 || r.status == 400) && CALLS.get().is_empty() => {}
                    x => return fail("odd-target", format!("target {:?}: {:?} calls {:?} {:?}", t, x, CALLS.get(), panics())),
                }
                no_panics()?;
            }
        }
        Ok(0)
    });
}

fn paths(depth: usize) -> Vec<String> {
    let mut v = words(&["a", "b", "c"], depth);
    v.extend(["/", "//", "/a/", "/a//b", "/:x", "/a/:x", "/:y/:x"].iter().map(|s| s.to_string()));
    v
}

/// Tables in which one dimension is large: siblings, depth, segment length, similar spellings.
fn large(r: &mut Run, fields: bool) {
    let n = if r.thorough { 48u64 } else { 30 };
    let o = Opts { steps: u64::MAX / 2, secs: 600, hang_secs: 60, ..Opts::default() };
    r.enumerate("large-tables", n * 9, 3, o, |lo, hi| {
        record_calls();
        let s = new_server(1);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (m, kind) = ((it / 9 + 1) as usize, it % 9);
            let g = format!("/g{}", it);
            let mut routes: Vec<String> = vec![];
            let mut paths: Vec<String> = vec![];
            let p = |i: usize| ["x", "y", "z", "w"][i % 4];
            match kind {
                // siblings; a parameter among them at the end, in the middle, at the start
                0 | 1 | 2 => {
                    for i in 0..m {
                        routes.push(format!("/s{}", i));
                        paths.push(format!("/s{}", i));
                    }
                    let at = if kind == 0 { m - 1 } else if kind == 1 { m / 2 } else { 0 };
                    routes[at] = "/:x".into();
                    paths.extend(["/s", "/s99", "/t", "/", "/s0/a"].iter().map(|x| x.to_string()));
                }
                // siblings with one child each
                3 => {
                    for i in 0..m {
                        routes.push(format!("/s{}/:x/c{}", i, m - i));
                        for j in [i, i + 1, (i + m / 2) % m] {
                            paths.push(format!("/s{}/v{}/c{}", i, j, m - j));
                        }
                    }
                }
                // a chain in which every prefix is a route
                4 | 5 => {
                    for i in 1..=m {
                        routes.push("/a".repeat(if kind == 4 { i } else { m + 1 - i }));
                    }
                    for i in 0..=m + 1 {
                        paths.push("/a".repeat(i) + if i == 0 { "/" } else { "" });
                        paths.push("/a".repeat(i) + "/b");
                    }
                }
                // deep, with literals between parameters; only the whole is a route
                6 => {
                    let mut q = String::new();
                    let mut t = String::new();
                    for i in 0..m {
                        q += &if i % 2 == 0 && i / 2 < 4 { format!("/:{}", p(i / 2)) } else { format!("/l{}", i) };
                        t += &if i % 2 == 0 { format!("/v{}", i) } else { format!("/l{}", i) };
                        paths.push(t.clone());
                    }
                    let full: String = segs(&q).iter().zip(segs(&t)).map(|(a, b)| format!("/{}", if a.starts_with(':') { b } else { a })).collect();
                    paths.push(full.clone());
                    paths.push(full.clone() + "/");
                    paths.push(full + "/v");
                    routes.push(q);
                }
                // long segments, and neighbours of them
                7 => {
                    let l = "ab".repeat(m * 5);
                    routes.push(format!("/{}/:x", l));
                    routes.push(format!("/:y/{}", l));
                    for a in [l.clone(), l.clone() + "a", l[1..].to_string(), l.to_uppercase()] {
                        for b in [l.clone(), l.clone() + "b", l[..l.len() - 1].to_string()] {
                            paths.push(format!("/{}/{}", a, b));
                        }
                    }
                }
                // spellings that differ in one character only
                _ => {
                    let sp = ["a", "A", "%61", "a%20b", "a+b", "a.b", "a.", ".a", "a-b", "a_b", "a~", "a;b", "a,b", "a:b", "a=b", "a&b", "a@b", "a!", "a$", "a*", "a'", "(a)", "aa", "aA", "Aa", "AA", ".", "..", "...", "*", "x", "?"];
                    for k in 0..6 {
                        let q = format!("/{}", sp[(m + k * 5) % (sp.len() - 1)]);
                        if !routes.contains(&q) {
                            routes.push(q);
                        }
                    }
                    for a in &sp[..sp.len() - 1] {
                        paths.push(format!("/{}", a));
                        paths.push(format!("/{}/", a));
                    }
                    if m % 3 == 0 {
                        routes.push("/:x".into());
                    }
                }
            }
            let ro = s.router(&g);
            let full: Vec<String> = routes.iter().map(|q| format!("{}{}", g, q)).collect();
            for (i, q) in routes.iter().enumerate() {
                ro.get(q, HS[i]);
            }
            let refs: Vec<&str> = full.iter().map(|x| x.as_str()).collect();
            for q in &paths {
                let t = format!("{}{}", g, q);
                probe(&refs, &t, &t, fields)?;
            }
        }
        Ok(0)
    });
}

/// Routes of two methods and of routers whose prefixes overlap, in every order.
fn mixed(r: &mut Run) {
    const M: [&str; 3] = ["GET", "POST", "DELETE"];
    // a route: prefix of its router, pattern, method
    let mut rs: Vec<(&str, &str, usize)> = vec![];
    for pre in ["", "/a", "/a/b", "/:x"] {
        for pat in ["/a", "/b", "/:y", "/a/b"] {
            for m in 0..if r.thorough { 3 } else { 2 } {
                rs.push((pre, pat, m));
            }
        }
    }
    let k = rs.len() as u64;
    let paths = words(&["a", "b", "c"], 3);
    let o = Opts { steps: u64::MAX / 2, secs: 600, hang_secs: 60, ..Opts::default() };
    r.enumerate("mixed-routers", k * k * if r.thorough { 6 } else { 1 }, 16, o, |lo, hi| {
        record_calls();
        let s = new_server(1);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let set = [rs[(it % k) as usize], rs[(it / k % k) as usize], rs[((it / k / k * 7 + it) % k) as usize]];
            let set: &[_] = if it / k / k == 0 { &set[..2] } else { &set };
            let full: Vec<String> = set.iter().map(|(p, q, _)| format!("/g{}{}{}", it, p, q)).collect();
            if (0..set.len()).any(|i| (0..i).any(|j| set[i].2 == set[j].2 && shape(&full[i]) == shape(&full[j]))) {
                continue;
            }
            for (i, (p, q, m)) in set.iter().enumerate() {
                let ro = s.router(&format!("/g{}{}", it, p));
                match m {
                    0 => ro.get(q, HS[i]),
                    1 => ro.post(q, HS[i]),
                    _ => ro.delete(q, HS[i]),
                }
            }
            for m in 0..3 {
                // the routes of this method keep their numbers: others are replaced by an unreachable pattern
                let own: Vec<String> = set.iter().zip(&full).enumerate().map(|(i, ((_, _, n), f))| if *n == m { f.clone() } else { format!("/none{}", i) }).collect();
                let refs: Vec<&str> = own.iter().map(|x| x.as_str()).collect();
                for q in &paths {
                    let t = format!("/g{}{}", it, q);
                    probe_m(&refs, M[m], &t, &t, true)?;
                }
            }
        }
        Ok(0)
    });
}

/// Routes registered while the server answers requests, from several threads.
fn late(r: &mut Run) {
    let t = r.thorough;
    for (name, registrars, clients, pool, mask, bound) in [
        ("registered-while-serving", 1usize, 1usize, 1usize, K_ALL, if t { 2 } else { 1 }), ("registered-while-serving-deep", 1, 1, 1, K_REDUCED, if t { 3 } else { 2 }), ("registered-while-serving-2", 1, 2, 2, K_REDUCED, if t { 2 } else { 1 }),
        ("registered-by-two", 2, 1, 2, K_REDUCED, if t { 2 } else { 1 }),
    ] {
        r.explore(name, Opts { bound, mask, secs: if t { 150 } else { 40 }, ..Opts::default() }, move || {
            // 0 not begun, 1 begun, 2 done
            static STEP: Cell<[u8; 2]> = Cell::new([0; 2]);
            static ERR: Cell<Option<String>> = Cell::new(None);
            *STEP.get() = [0; 2];
            *ERR.get() = None;
            let mut s = None;
            no_sched(|| {
                record_calls();
                let sv = new_server(pool);
                sv.router("").get("/a/c", HS[0]);
                sv.router("").post("/b", HS[5]);
                start(&sv);
                s = Some(sv);
            });
            let s = s.unwrap();
            let mut js = vec![];
            for g in 0..registrars {
                let ro = s.router(["", "/a"][g]);
                js.push(spawn_harness(move || {
                    STEP.get()[g] = 1;
                    match g {
                        0 => ro.get("/:x", HS[1]),
                        _ => ro.get("/:y", HS[2]),
                    }
                    STEP.get()[g] = 2;
                }));
            }
            for c in 0..clients {
                js.push(spawn_harness(move || {
                    // the target, the route it may have from the start, the one registered later and by whom
                    for (target, was, will) in [("/b", None, Some((0usize, 1usize))), ("/a/c", Some(0), None), ("/b", None, Some((0, 1))), ("/a/d", None, if registrars == 2 { Some((1, 2)) } else { None })].into_iter().skip(c) {
                        let before = *STEP.get();
                        let got = match once(&get(target)) {
                            Ok(x) if x.status == 404 => None,
                            Ok(x) => match x.text().strip_prefix('h').and_then(|k| k.parse().ok()) {
                                Some(k) => Some(k),
                                None => Some(99),
                            },
                            Err(_) => Some(98),
                        };
                        let after = *STEP.get();
                        let ok = match will {
                            Some((g, h)) => (got == Some(h) && after[g] > 0) || (got == was && before[g] < 2),
                            None => got == was,
                        };
                        if !ok && ERR.get().is_none() {
                            *ERR.get() = Some(format!("GET {} answered by {:?}, registration before {:?} after {:?}", target, got, before, after));
                        }
                    }
                }));
            }
            for j in js {
                let _ = j.join();
            }
            if let Some(e) = ERR.get().take() {
                return fail("late-route", e);
            }
            // when everything is registered all routes are served
            no_sched(|| {
                probe(&["/a/c", "/:x"], "/b", "/b", false)?;
                probe(&["/a/c", "/:x"], "/a/c", "/a/c", false)?;
                if registrars == 2 {
                    probe(&["/none", "/:x", "/a/:y"], "/a/e", "/a/e", false)?;
                }
                no_panics()
            })?;
            Ok(0)
        });
    }
}

pub fn p05(r: &mut Run) {
    late(r);
    r.assume("HTTP/1.1 GET requests in one segment, route patterns of up to 3 (thorough 4) segments over two literals and a parameter; all ordered sets of up to 3 routes (registration order matters)");
    methods(r);
    registration(r, words(&["a", "b", ":x", ":y"], 2));
    large(r, false);
    mixed(r);
    odd_targets(r);
    sets(r, "single", words(&["a", "b", ":x"], 4), words(&["a", "b", "c"], 5), 1, false, true);
    sets(r, "no-group", words(&["a", ":x"], 2), paths(3), 2, false, false);
    sets(r, "pairs", words(&["a", "b", ":x"], 3), paths(4), 2, false, true);
    sets(r, "triples", words(&["a", "b", ":x"], 2), paths(3), 3, false, true);
    sets(r, "triples-deep", words(&["a", ":x"], 3), words(&["a", "b"], 4), 3, false, true);
    sets(r, "triples-3", words(&["a", "b", ":x"], 3), words(&["a", "b", "c"], 3), 3, false, true);
    sets(r, "quads", words(&["a", ":x"], 3), words(&["a", "b"], 3), 4, false, true);
    if r.thorough {
        sets(r, "pairs-4", words(&["a", "b", ":x"], 4), words(&["a", "b", "c"], 4), 2, false, true);
        sets(r, "quads-3", words(&["a", "b", ":x"], 2), words(&["a", "b", "c"], 3), 4, false, true);
        sets(r, "quads-4", words(&["a", ":x"], 4), words(&["a", "b"], 4), 4, false, true);
        sets(r, "triples-4", words(&["a", "b", ":x"], 4), words(&["a", "b"], 4), 3, false, true);
        sets(r, "quints", words(&["a", ":x"], 3), words(&["a", "b"], 3), 5, false, true);
    }
}

pub fn p06(r: &mut Run) {
    r.assume("parameter names x,y,z (and their absence) queried by the handler; route patterns of up to 3 segments, ordered sets of up to 3 routes; the names within one pattern are distinct");
    odd_targets(r);
    large(r, true);
    sets(r, "single", distinct(words(&["a", ":x", ":y", ":z"], 3)), words(&["a", "b", "cc"], 3), 1, true, true);
    sets(r, "pairs", distinct(words(&["a", ":x", ":y"], 3)), words(&["a", "b", "cc"], 3), 2, true, true);
    sets(r, "triples", distinct(words(&["a", ":x", ":y"], 2)), words(&["a", "b"], 2), 3, true, true);
    sets(r, "triples-3", distinct(words(&["a", ":x", ":y"], 3)), words(&["a", "b"], 3), 3, true, true);
    sets(r, "three-names", distinct(words(&["a", ":x", ":y", ":z"], 3)), words(&["a", "b"], 3), 2, true, true);
    if r.thorough {
        sets(r, "quads", distinct(words(&["a", ":x", ":y"], 2)), words(&["a", "b"], 3), 4, true, true);
        sets(r, "pairs-4", distinct(words(&["a", ":x", ":y", ":z"], 4)), words(&["a", "b"], 4), 2, true, true);
    }
    super::cross::requests(r, super::cross::Aspect::Fields);
}

// ------------------------------------------------------------------ P07
static P: Cell<(usize, usize, usize)> = Cell::new((0, 0, 0)); // who sends the response, who panics.., body id

pub fn p07(r: &mut Run) {
    r.assume("routes with up to 4 own and 4 group filters; the response is sent by any one of them (or twice, or by none, then by the handler); filters do not panic");
    let (own, grp) = if r.thorough { (5usize, 5usize) } else { (3, 3) };
    // configurations: own count, group count (with or without extend objects), sender position (0..=own+grp), second send, request kind
    let mut cfg = vec![];
    for a in 0..=own {
        for b in 0..=grp {
            for has_own in [false, true] {
                for has_grp in [false, true] {
                    if (a > 0 && !has_own) || (b > 0 && !has_grp) {
                        continue;
                    }
                    for sender in 0..=a + b {
                        for perm in 0..6 {
                            cfg.push((a, b, has_own, has_grp, sender, perm, 2));
                        }
                    }
                }
            }
        }
    }
    // the same on routes with a rate limit of their own (each has a busy thread: fewer configurations)
    let lim: Vec<_> = cfg.iter().cloned().filter(|c| c.0 <= 2 && c.1 <= 2 && (c.5 == 0 || (r.thorough && c.5 < 3))).collect();
    filters(r, "filters", cfg, 8, false);
    // every method, and long lists
    let mut cfg = vec![];
    for m in 0..12 {
        for a in 0..=2 {
            for b in 0..=2 {
                for sender in 0..=a + b {
                    for e in 0..4 {
                        if (a == 0 || e & 1 > 0) && (b == 0 || e & 2 > 0) {
                            cfg.push((a, b, e & 1 > 0, e & 2 > 0, sender, (m + sender) % 6, m));
                        }
                    }
                }
            }
        }
    }
    filters(r, "methods", cfg, 8, false);
    let mut cfg = vec![];
    let max = if r.thorough { 20 } else { 12 };
    for (a, b) in (0..=max).map(|n| (n, 0)).chain((0..=max).map(|n| (0, n))).chain((0..=max).map(|n| (n, n))).chain((0..=max).map(|n| (max - n, n))) {
        for sender in 0..=a + b {
            cfg.push((a, b, true, true, sender, (a + sender) % 6, 1 + sender % 2));
        }
    }
    filters(r, "long-lists", cfg, 8, false);
    kept_alive(r);
    repeated(r);
    filters(r, "filters-limited", lim, 1, true);
    super::cross::requests(r, super::cross::Aspect::Filters);
}

/// Several requests on one connection, waited for or pipelined, answered from different places.
fn kept_alive(r: &mut Run) {
    let k = if r.thorough { 4u32 } else { 3 };
    let mut cfg = vec![];
    for a in 0..=2usize {
        for b in 0..=2usize {
            for i in 0..((a + b + 1) as u64).pow(k) {
                for mode in 0..3 {
                    cfg.push((a, b, i, mode));
                }
            }
        }
    }
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    r.enumerate("kept-alive", cfg.len() as u64, 16, o, |lo, hi| {
        // who answers: named in the request
        on_call(|c, tag| {
            let k: usize = c.req_param("k").unwrap().parse().unwrap();
            let me = match tag {
                Tag::F(i) => i,
                Tag::H(_) => c.req_param("n").unwrap().parse().unwrap(),
            };
            CALLS.get().push(Call { tag, fields: BTreeMap::new(), count: me, path: c.req_param("j").unwrap() });
            c.resp_add_header("Trace".into(), format!("{}", me));
            if k == me {
                c.resp_body(format!("by{}", me).into_bytes());
                c.response();
            }
        });
        let s = new_server(1);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (a, b, mut i, mode) = cfg[it as usize];
            let n = a + b;
            let pre = format!("/g{}", it);
            let g = if b > 0 || it % 2 == 0 { s.router_wf(&pre, Extend::e1((a..n).map(|i| FS[i]).collect())) } else { s.router(&pre) };
            add!(g, 1, "/k", HS[0], if a > 0 || it % 3 == 0 { Some(Extend::e1((0..a).map(|i| FS[i]).collect())) } else { None });
            let senders: Vec<usize> = (0..k)
                .map(|_| {
                    let x = (i % (n as u64 + 1)) as usize;
                    i /= n as u64 + 1;
                    x
                })
                .collect();
            CALLS.get().clear();
            let rq = |j: usize| format!("GET {}/k?k={}&n={}&j={} HTTP/1.1\r\nHost: h\r\n{}\r\n", pre, senders[j], n, j, if j + 1 < senders.len() { "Connection: keep-alive\r\n" } else { "" }).into_bytes();
            let mut c = Cl::new();
            if mode == 1 {
                c.send(&(0..senders.len()).flat_map(|j| rq(j)).collect::<Vec<u8>>());
            }
            for j in 0..senders.len() {
                if mode == 0 {
                    c.send(&rq(j));
                } else if mode == 2 {
                    for b in rq(j) {
                        c.send(&[b]);
                    }
                }
                let what = format!("own {} group {} answered by {:?} mode {} request {}", a, b, senders, mode, j);
                let rs = match c.next(3000) {
                    Ok(x) => x,
                    Err(e) => return fail("no-answer", format!("{}: {} {:?}", what, e, panics())),
                };
                let trace: Vec<String> = (0..=senders[j]).map(|i| i.to_string()).collect();
                if rs.status != 200 || rs.text() != format!("by{}", senders[j]) || rs.all("Trace") != trace {
                    return fail("response", format!("{}: {:?}", what, rs));
                }
            }
            if let Err(e) = c.closed(3000) {
                return fail("not-closed", format!("{:?}: {}", cfg[it as usize], e));
            }
            let want: Vec<(String, usize)> = senders.iter().enumerate().flat_map(|(j, &s)| (0..=s).map(move |i| (j.to_string(), i))).collect();
            let got: Vec<(String, usize)> = CALLS.get().iter().map(|c| (c.path.clone(), c.count)).collect();
            if got != want {
                return fail("order", format!("own {} group {} answered by {:?} mode {}: calls (request, who) {:?}, expected {:?}", a, b, senders, mode, got, want));
            }
            no_panics()?;
        }
        Ok(0)
    });
}

/// A filter named several times runs that often.
fn repeated(r: &mut Run) {
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    let lists: Vec<Vec<usize>> = (0..nstr(2, 3)).map(|i| nth(2, i)).collect();
    let k = lists.len() as u64;
    r.enumerate("repeated", k * k * 7, 64, o, |lo, hi| {
        // the n-th call answers
        static AT: Cell<usize> = Cell::new(0);
        on_call(|c, tag| {
            CALLS.get().push(Call { tag, fields: BTreeMap::new(), count: 0, path: String::new() });
            let n = CALLS.get().len();
            c.resp_add_header("Trace".into(), format!("{}", n));
            if n == *AT.get() || matches!(tag, Tag::H(_)) {
                c.resp_body(format!("by{}", n).into_bytes());
                c.response();
            }
        });
        let s = new_server(1);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (own, group) = (&lists[(it % k) as usize], &lists[(it / k % k) as usize]);
            *AT.get() = (it / k / k) as usize + 1;
            let pre = format!("/g{}", it);
            let e = |l: &[usize]| Extend::e1(l.iter().map(|&i| FS[i]).collect());
            s.router_wf(&pre, e(group)).get_wf("/k", HS[0], e(own));
            CALLS.get().clear();
            let what = format!("own filters {:?} group filters {:?}, call {} answers", own, group, AT.get());
            let rs = match once(&get(&format!("{}/k", pre))) {
                Ok(x) => x,
                Err(e) => return fail("no-answer", format!("{}: {} {:?}", what, e, panics())),
            };
            let mut want: Vec<Tag> = own.iter().chain(group).map(|&i| Tag::F(i)).collect();
            want.push(Tag::H(0));
            want.truncate(*AT.get());
            let got: Vec<Tag> = CALLS.get().iter().map(|c| c.tag).collect();
            let trace: Vec<String> = (1..=want.len()).map(|i| i.to_string()).collect();
            if got != want || rs.text() != format!("by{}", want.len()) || rs.all("Trace") != trace {
                return fail("order", format!("{}: calls {:?}, expected {:?}, answer {:?}", what, got, want, rs));
            }
        }
        no_panics()?;
        Ok(0)
    });
}

fn filters(r: &mut Run, name: &str, cfg: Vec<(usize, usize, bool, bool, usize, usize, usize)>, chunk: u64, limited: bool) {
    let o = Opts { steps: u64::MAX / 2, ..Opts::default() };
    r.enumerate(name, cfg.len() as u64, chunk, o, |lo, hi| {
        on_call(|c, tag| {
            let mut fields = BTreeMap::new();
            for n in NAMES {
                if let Some(v) = c.req_field(n) {
                    fields.insert(n.to_string(), v);
                }
            }
            for (k, v) in [("q", c.req_param("q")), ("hdr", c.req_header_get("K")), ("form", c.req_form("f").ok().flatten()), ("cookie", c.req_cookie_get("c").map(|x| x.to_string()))] {
                if let Some(v) = v {
                    fields.insert(format!("{}=", k), v);
                }
            }
            let idx = CALLS.get().len();
            CALLS.get().push(Call { tag, fields, count: c.req_count_fields(), path: c.req_path() });
            c.resp_add_header("Trace".into(), format!("{}", idx));
            let id = match tag {
                Tag::F(i) => format!("f{}", i),
                Tag::H(i) => format!("h{}", i),
            };
            c.resp_set_header_str("Last", &id);
            if idx == P.get().0 {
                c.resp_status(starry::Status::ACCEPTED);
                c.resp_body(id.into_bytes());
                c.response();
            }
        });
        let s = new_server(1);
        start(&s);
        for it in lo..hi {
            at_item(it);
            let (a, b, has_own, has_grp, sender, perm, m) = cfg[it as usize];
            // which filter functions: distinct, in an order that is not the index order
            let order: [usize; 3] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
            let fid = |k: usize| order[k % 3] + 3 * (k / 3);
            let ids: Vec<usize> = (0..a + b).map(|k| if perm % 2 == 1 && k > 0 && k % 4 == 3 { fid(0) } else { fid(k) }).collect();
            let own_f: Vec<Handler> = ids[..a].iter().map(|&i| FS[i]).collect();
            let grp_f: Vec<Handler> = ids[a..].iter().map(|&i| FS[i]).collect();
            let pre = format!("/g{}", it);
            let g = if has_grp { s.router_wf(&pre, Extend::e1(grp_f)) } else { s.router(&pre) };
            if limited {
                let l = Limit::new(1, 1, 0);
                add!(g, m, "/:x/k", HS[7], Some(if has_own { Extend::e3(own_f, l) } else { Extend::e2(l) }));
            } else if has_own {
                add!(g, m, "/:x/k", HS[7], Some(Extend::e1(own_f)));
            } else {
                add!(g, m, "/:x/k", HS[7], None);
            }
            // a sibling route of the group, to see that filter lists are not shared
            add!(g, m, "/other", HS[8], None);
            for sib in [false, true] {
                CALLS.get().clear();
                let want: Vec<Tag> = if sib {
                    ids[a..].iter().map(|&i| Tag::F(i)).chain([Tag::H(8)]).collect()
                } else {
                    ids.iter().map(|&i| Tag::F(i)).chain([Tag::H(7)]).collect()
                };
                P.get().0 = if sib { want.len() - 1 } else { sender };
                let want = &want[..P.get().0 + 1];
                let t = if sib { format!("{}/other?q=7", pre) } else { format!("{}/v/k?q=7", pre) };
                let form = ["POST", "PUT", "PATCH"].contains(&METHODS[m]);
                let rq = req(METHODS[m], &t, &[("K", "kv"), ("Cookie", "c=d"), ("Content-Type", "application/x-www-form-urlencoded")], if form { b"f=g" } else { b"" });
                let rs = match once(&rq) {
                    Ok(x) => x,
                    Err(e) => return fail("no-answer", format!("config {:?}: {} {:?}", cfg[it as usize], e, panics())),
                };
                let got: Vec<Tag> = CALLS.get().iter().map(|c| c.tag).collect();
                if got != want {
                    return fail("order", format!("config {:?} sibling {}: calls {:?}, expected {:?}", cfg[it as usize], sib, got, want));
                }
                for c in CALLS.get().iter() {
                    let mut f = vec![("cookie=", "c=d"), ("hdr=", "kv"), ("q=", "7")];
                    if form {
                        f.push(("form=", "g"));
                    }
                    if !sib {
                        f.push(("x", "v"));
                    }
                    let f: BTreeMap<String, String> = f.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                    if c.fields != f {
                        return fail("different-request", format!("config {:?}: {:?} sees {:?}, expected {:?}", cfg[it as usize], c.tag, c.fields, f));
                    }
                }
                let last = match want.last().unwrap() {
                    Tag::F(i) => format!("f{}", i),
                    Tag::H(i) => format!("h{}", i),
                };
                let trace: Vec<String> = (0..want.len()).map(|i| i.to_string()).collect();
                if rs.status != 202 || rs.text() != last || rs.all("Trace") != trace || rs.all("Last") != vec![last.clone()] {
                    return fail("response", format!("config {:?}: expected 202 {:?} Trace {:?}, got {:?}", cfg[it as usize], last, trace, rs));
                }
            }
            no_panics()?;
        }
        Ok(0)
    });
}

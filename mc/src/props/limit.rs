//! P08: admissions on rate-limited routes under virtual time.
use super::req::*;
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::{Extend, HttpServer, Limit};

/// (section, count, interval)
type L = (i64, usize, i64);
const LIMITS: [L; 12] = [
    (50, 1, 0), (50, 2, 0), (50, 3, 0), (0, 1, 20), (50, 2, 10), (50, 3, 20), (100, 2, 60), (30, 3, 40), (1000, 2, 0), (-1, 2, 15), (40, 2, -1), (60, 5, 7),
];

/// (route, request, virtual ms) of every handler invocation
static ADM: Cell<Vec<(usize, usize, u64)>> = Cell::new(vec![]);

/// /r0, /r1, .. limited by `ls`, /free not limited; `way`: how the routes are registered
/// (from 8 on: the routes share the first limit; odd: with a filter of their own; /2: group without extension, with an empty one, with one or two filters)
fn server(ls: &[L], pool: usize, ka: i64, way: usize) -> (HttpServer, Vec<Vec<u64>>) {
    on_call(|c, t| {
        let n: usize = c.req_param("n").unwrap_or_default().parse().unwrap_or(999);
        if let Tag::H(route) = t {
            ADM.get().push((route, n, now_ms()));
            if c.req_have_param("boom") {
                panic!("handler");
            }
            c.resp_body(format!("{}-{}", route, n).into_bytes());
            c.response();
        }
    });
    ADM.get().clear();
    let mut s = new_server(pool);
    s.set_keepalive(ka);
    let g = match way / 2 % 4 {
        0 => s.router(""),
        1 => s.router_wf("", Extend::e1(vec![])),
        2 => s.router_wf("", Extend::e1(vec![FS[1]])),
        _ => s.router_wf("", Extend::e1(vec![FS[1], FS[2]])),
    };
    let mut pre: Vec<Vec<u64>> = vec![];
    let mut made: Vec<Limit> = vec![];
    for (i, l) in ls.iter().enumerate() {
        let t0 = now_ms();
        let lim = match made.first() {
            Some(first) if way >= 8 => first.clone(),
            _ => Limit::new(l.0, l.1, l.2),
        };
        made.push(lim.clone());
        let e = if way % 2 == 1 { Extend::e3(vec![FS[0]], lim) } else { Extend::e2(lim) };
        let (m, param) = *HOW.get();
        super::routes::add!(g, m, &format!("/r{}{}", i, if param { "/:id/x" } else { "" }), HS[i], Some(e));
        if way >= 8 && i > 0 {
            pre.push(vec![]);
            continue;
        }
        // times the limiter starts from
        pre.push((0..l.1 as u64).map(|j| t0 + j * l.2.max(0) as u64 + 1).collect());
    }
    g.get("/free", HS[9]);
    start(&s);
    (s, pre)
}

/// method of the limited routes, and whether their patterns have a parameter
static HOW: Cell<(usize, bool)> = Cell::new((1, false));

fn request(route: usize, n: usize, more: &str) -> Vec<u8> {
    let (m, param) = *HOW.get();
    if route == 9 {
        return get(&format!("/free?n={}{}", n, more));
    }
    let p = if param { format!("/r{}/{}/x", route, n % 3) } else { format!("/r{}", route) };
    let body = if [2, 3, 8].contains(&m) { &b"a=b"[..] } else { b"" };
    req(super::routes::METHODS[m], &format!("{}?n={}{}", p, n, more), &[], body)
}

/// Lower bounds: the quota. `strict` times of the admissions of one route, in order.
fn quota(t: &[u64], l: L, ctx: &dyn Fn(&str) -> String) -> Result<(), Verdict> {
    for k in 1..t.len() {
        if l.2 > 0 && t[k] - t[k - 1] <= l.2 as u64 {
            return fail("interval", ctx(&format!("admissions at {:?} ms, limit {:?}: number {} comes {} ms after the one before", t, l, k, t[k] - t[k - 1])));
        }
        if l.0 > 0 && k >= l.1 && t[k] - t[k - l.1] <= l.0 as u64 {
            return fail("quota", ctx(&format!("admissions at {:?} ms, limit {:?}: {} admissions within {} ms", t, l, l.1 + 1, t[k] - t[k - l.1])));
        }
    }
    Ok(())
}

/// Upper bounds: the k-th admission happens as soon as the quota allows it (and k requests are there).
fn prompt(t: &[u64], arr: &[u64], pre: &[u64], l: L, ctx: &dyn Fn(&str) -> String) -> Result<(), Verdict> {
    let mut arr = arr.to_vec();
    arr.sort();
    if t.len() != arr.len() {
        return fail("not-admitted", ctx(&format!("{} of {} requests were admitted, at {:?}; limit {:?}", t.len(), arr.len(), t, l)));
    }
    let mut all = pre.to_vec();
    all.extend(t);
    for k in 0..t.len() {
        let i = pre.len() + k;
        let due = arr[k].max(all[i - l.1] + l.0.max(0) as u64 + 1).max(all[i - 1] + l.2.max(0) as u64 + 1);
        if t[k] > due + 4 {
            return fail("late", ctx(&format!("requests at {:?} ms, limiter started with {:?}, admissions at {:?}, limit {:?}: number {} was due at {}", arr, pre, t, l, k, due)));
        }
    }
    Ok(())
}

fn times(route: usize) -> Vec<u64> {
    ADM.get().iter().filter(|a| a.0 == route).map(|a| a.2).collect()
}

fn gaps(l: L) -> Vec<u64> {
    let (s, i) = (l.0.max(0) as u64, l.2.max(0) as u64);
    let mut g = vec![0, i / 2, i + 2, s / 2, s + 2, 3 * (s + i) + 50];
    g.sort();
    g.dedup();
    g
}

/// Amounts (ms) the wall clock is set forward or back by: daylight saving, corrections.
pub(super) const STEPS: [i64; 8] = [3_600_000, -3_600_000, 86_400_000, 1000, -1000, 60, -60, -5];
/// before which request, by how much
static STEP: Cell<(usize, i64)> = Cell::new((0, 0));

/// Requests (route, gap before it), each from its own connection; everything is checked.
fn run(ls: &[L], plan: &[(usize, u64)], pool: usize, way: usize) -> Result<(), Verdict> {
    let (_s, pre) = server(ls, pool, 0, way);
    let ctx = |e: &str| format!("limits {:?}, requests (route, ms after the one before) {:?}, {} workers, registered in way {}: {}", ls, plan, pool, way, e);
    let mut cs = vec![];
    let mut arr = vec![];
    for (n, (route, gap)) in plan.iter().enumerate() {
        if *gap > 0 {
            settle(*gap);
        }
        if STEP.get().0 == n && n > 0 {
            settle(1);
            step_clock(STEP.get().1);
            settle(1);
        }
        let c = Cl::from(0x0A000001 + n as u32, 1000);
        c.send(&request(*route, n, ""));
        arr.push((*route, now_ms()));
        cs.push(c);
    }
    let span: i64 = ls.iter().map(|l| l.0.max(0) + l.2.max(0)).sum::<i64>() + 10;
    for (n, c) in cs.iter_mut().enumerate() {
        match c.next((span as u64) * (plan.len() as u64 + 2) + 3000) {
            Ok(r) if r.status == 200 && r.body == format!("{}-{}", plan[n].0, n).as_bytes() => {}
            x => return fail("answer", ctx(&format!("request {}: {:?}", n, x))),
        }
        c.closed(3000).or_else(|e| fail("answer", ctx(&e)))?;
        c.p.close();
    }
    for (r, l) in ls.iter().enumerate() {
        // with a shared limit all routes' admissions count together
        let its = |x: usize| x == r || (way >= 8 && x < ls.len());
        if way >= 8 && r > 0 {
            break;
        }
        let t: Vec<u64> = ADM.get().iter().filter(|a| its(a.0)).map(|a| a.2).collect();
        let a: Vec<u64> = arr.iter().filter(|x| its(x.0)).map(|x| x.1).collect();
        quota(&t, *l, &ctx)?;
        prompt(&t, &a, &pre[r], *l, &ctx)?;
    }
    let f = times(9);
    let fa: Vec<u64> = arr.iter().filter(|x| x.0 == 9).map(|x| x.1).collect();
    if f.len() != fa.len() || f.iter().zip(&fa).any(|(a, b)| *a > b + 4) {
        return fail("other-route", ctx(&format!("requests to the unlimited route at {:?} were handled at {:?}", fa, f)));
    }
    no_panics()
}

pub fn p08(r: &mut Run) {
    r.assume("virtual time: the limiter and the workers take (almost) no time by themselves; the admission of a request is observed where its handler starts, and is prompt when within 4 ms of the reference schedule, which counts the C admissions the limiter starts with");
    let len = if r.thorough { 6 } else { 5 };
    for (li, l) in LIMITS.iter().enumerate() {
        let g = gaps(*l);
        let k = g.len() as u64;
        let n = len;
        let per = k.pow(n as u32);
        r.enumerate(&format!("histories-{}-{}-{}", l.0, l.1, l.2), per, 1, opts(), |lo, hi| {
            for it in lo..hi {
                at_item(it);
                let mut x = it;
                let plan: Vec<(usize, u64)> = (0..n).map(|_| { let v = g[(x % k) as usize]; x /= k; (0, v) }).collect();
                run(&[*l], &plan, n + 1, (it % 8) as usize)?;
            }
            Ok(0)
        });
    }
    // longer histories over fewer gaps: bursts and idle periods
    let n = if r.thorough { 10 } else { 8 };
    for l in [(50i64, 2usize, 0i64), (50, 3, 10), (0, 2, 20)] {
        let g = [0u64, 2 * (l.0 + l.2) as u64 + 20];
        r.enumerate(&format!("bursts-{}-{}-{}", l.0, l.1, l.2), 1 << n, 1, opts(), |lo, hi| {
            for it in lo..hi {
                at_item(it);
                let plan: Vec<(usize, u64)> = (0..n).map(|j| (0, g[(it >> j & 1) as usize])).collect();
                run(&[l], &plan, n + 1, (it % 8) as usize)?;
            }
            Ok(0)
        });
    }
    // two limited routes and an unlimited one
    let n = if r.thorough { 5 } else { 4 };
    for (a, b) in [((50i64, 1usize, 0i64), (50i64, 2usize, 0i64)), ((0, 1, 30), (200, 1, 0)), ((40, 2, 10), (40, 2, 10))] {
        let g = [0u64, 12, 60];
        r.enumerate(&format!("routes-{:?}-{:?}", a, b).replace(' ', ""), 9u64.pow(n), 1, opts(), |lo, hi| {
            for it in lo..hi {
                at_item(it);
                let plan: Vec<(usize, u64)> = nth_fixed(9, n as usize, it).iter().map(|v| ([0usize, 1, 9][v % 3], g[v / 3])).collect();
                run(&[a, b], &plan, n as usize + 1, (it % 8) as usize)?;
            }
            Ok(0)
        });
    }
    // routes that were given one and the same limit share its quota
    for l in [(50i64, 1usize, 0i64), (0, 1, 30), (40, 2, 10), (60, 3, 0)] {
        let g = [0u64, 12, 60];
        r.enumerate(&format!("shared-{}-{}-{}", l.0, l.1, l.2), 9u64.pow(n), 1, opts(), |lo, hi| {
            for it in lo..hi {
                at_item(it);
                let plan: Vec<(usize, u64)> = nth_fixed(9, n as usize, it).iter().map(|v| ([0usize, 1, 9][v % 3], g[v / 3])).collect();
                run(&[l, l], &plan, n as usize + 1, 8 + (it % 8) as usize)?;
            }
            Ok(0)
        });
    }
    // every method, with and without a parameter in the pattern
    r.enumerate("methods", 12 * 12 * 2 * 9, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = LIMITS[(it % 12) as usize];
            *HOW.get() = ((it / 12 % 12) as usize, it / 144 % 2 == 1);
            let g = gaps(l);
            let x = it / 288;
            let (a, b) = (g[(x % 3) as usize * (g.len() - 1) / 2], g[(x / 3) as usize * (g.len() - 1) / 2]);
            run(&[l], &[(0, 0), (0, a), (0, 0), (0, b), (0, 0)], 6, (it % 8) as usize).map_err(|v| Verdict { key: v.key, msg: format!("method {}, parameter {}: {}", super::routes::METHODS[HOW.get().0], HOW.get().1, v.msg) })?;
        }
        Ok(0)
    });
    // larger quotas and longer sections: bursts beyond twice the quota, idle periods of minutes and hours between them
    let ls: [L; 16] = [(50, 8, 0), (50, 16, 0), (200, 10, 5), (1000, 10, 0), (1000, 33, 20), (60_000, 30, 0), (60_000, 3, 500), (1000, 100, 0), (3_600_000, 2, 0), (0, 1, 60_000), (50, 64, 1), (50, 65, 0), (10, 7, 100), (1, 1, 0), (1, 50, 1), (65_536, 2, 0)];
    r.enumerate("large", 16 * 8, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = ls[(it % 16) as usize];
            let mut plan = vec![];
            for (b, idle) in [(l.1 / 2 + 1, 0), (2 * l.1 + 3, 3 * l.0.max(l.2) as u64), (l.1 + 1, if it & 16 == 0 { 0 } else if it / 16 == 1 { 1_000_000 } else { 20_000 })] {
                plan.push((0, idle));
                plan.extend((1..b).map(|j| (if it & 32 == 0 { 0 } else { [0, 9][j % 2] }, if it & 64 == 0 { 0 } else { 1 })));
            }
            if l.0 > 1_000_000 {
                if it / 16 % 4 > 0 {
                    continue;
                }
                plan.truncate(4);
            }
            // no more waiting than the server queues, and a worker for every request where some are for the other route
            let pool = if it & 32 == 0 { plan.len().saturating_sub(90).max(12) } else { plan.len() + 1 };
            if pool > 210 {
                continue;
            }
            run(&[l], &plan, pool, (it % 8) as usize)?;
        }
        Ok(0)
    });
    // the wall clock is set forward or back while the limiter runs
    r.enumerate("clock-steps", 12 * STEPS.len() as u64 * 4 * 9, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = LIMITS[(it % 12) as usize];
            let mut x = it / 12;
            let step = STEPS[(x % STEPS.len() as u64) as usize];
            x /= STEPS.len() as u64;
            let at = x % 4;
            let g = gaps(l);
            let (a, b) = (g[(x / 4 % 3) as usize * (g.len() - 1) / 2], g[(x / 12) as usize * (g.len() - 1) / 2]);
            let plan = [(0, a), (0, 0), (0, b), (0, 0), (0, 0)];
            *STEP.get() = (at as usize + 1, step);
            run(&[l], &plan, 6, (it % 8) as usize).map_err(|v| Verdict { key: v.key, msg: format!("the wall clock moves by {} ms before request {}: {}", step, at + 1, v.msg) })?;
        }
        Ok(0)
    });
    // fewer workers than waiting requests
    r.enumerate("few-workers", 12 * 2 * 27, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = LIMITS[(it % 12) as usize];
            let pool = 1 + (it / 12 % 2) as usize;
            let g = gaps(l);
            let mut plan = vec![(0, 0)];
            plan.extend(nth_fixed(3, 3, it / 24).iter().map(|v| (0, g[*v * (g.len() - 1) / 2])));
            plan.push((0, 0));
            run(&[l], &plan, pool, (it / 12 % 8) as usize)?;
        }
        Ok(0)
    });
    // kept-alive connections, clients that leave while they wait, handlers that panic
    let n = 4usize;
    r.enumerate("disturbed", 4u64.pow(n as u32) * 4, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = [(50i64, 1usize, 0i64), (50, 2, 10), (0, 1, 30), (100, 3, 0)][(it % 4) as usize];
            let acts = nth_fixed(4, n, it / 4);
            let (_s, _) = server(&[l], n + 2, 0, 0);
            let ctx = |e: &str| format!("limit {:?}, clients {:?} (0 waits, 1 closes, 2 resets, 3 its handler panics): {}", l, acts, e);
            let mut cs = vec![];
            for (i, a) in acts.iter().enumerate() {
                let c = Cl::from(0x0A000001 + i as u32, 1000);
                c.send(&request(0, i, if *a == 3 { "&boom=1" } else { "" }));
                cs.push(c);
                settle(1);
            }
            settle(3);
            for (i, a) in acts.iter().enumerate() {
                match a {
                    1 => cs[i].p.close(),
                    2 => cs[i].p.reset(),
                    _ => {}
                }
            }
            settle(1500);
            for (i, a) in acts.iter().enumerate() {
                if *a == 0 {
                    match cs[i].next(3000) {
                        Ok(r) if r.body == format!("0-{}", i).as_bytes() => {}
                        x => return fail("answer", ctx(&format!("client {}: {:?}; admissions {:?}", i, x, ADM.get()))),
                    }
                }
                if *a != 1 && *a != 2 {
                    cs[i].p.close();
                }
            }
            let c = Cl::new();
            c.send(&request(0, 77, ""));
            let mut c = c;
            match c.next(3000) {
                Ok(r) if r.body == b"0-77" => {}
                x => return fail("answer", ctx(&format!("later client: {:?}", x))),
            }
            c.p.close();
            quota(&times(0), l, &ctx)?;
        }
        Ok(0)
    });
    // requests of one kept-alive connection
    r.enumerate("kept-alive", 12 * 27, 1, opts(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let l = LIMITS[(it % 12) as usize];
            let g = gaps(l);
            let (_s, pre) = server(&[l], 2, 60_000, 0);
            let plan: Vec<u64> = nth_fixed(3, 3, it / 12).iter().map(|v| g[*v * (g.len() - 1) / 2]).collect();
            let ctx = |e: &str| format!("limit {:?}, requests on one connection, gaps {:?}: {}", l, plan, e);
            let mut c = Cl::new();
            let mut arr = vec![];
            for (i, gap) in plan.iter().enumerate() {
                if *gap > 0 {
                    settle(*gap);
                }
                arr.push(now_ms());
                c.send(&req("GET", &format!("/r0?n={}", i), &[("Connection", "keep-alive")], b""));
                match c.next(5000) {
                    Ok(r) if r.body == format!("0-{}", i).as_bytes() => {}
                    x => return fail("answer", ctx(&format!("request {}: {:?}", i, x))),
                }
            }
            c.p.close();
            let t = times(0);
            quota(&t, l, &ctx)?;
            prompt(&t, &arr, &pre[0], l, &ctx)?;
            no_panics()?;
        }
        Ok(0)
    });
    // all schedules
    for l in [(30i64, 1usize, 0i64), (30, 2, 5), (0, 2, 10)] {
        for (clients, way) in [(2usize, 0usize), (3, 0), (2, 8)] {
            for (mask, mn) in [(K_REDUCED, "sync"), (K_ALL, "all")] {
                let deep = if mask == K_REDUCED && way == 0 { 1 } else { 0 };
                let bound = if clients == 2 { 1 + deep } else { 1 } + if r.thorough { 1 } else { 0 };
                let o = Opts { bound, mask, steps: 400_000, secs: if r.thorough { 120 } else { 50 }, ..Opts::default() };
                r.explore(&format!("schedules-{}-{}-{}-clients{}-{}{}", l.0, l.1, l.2, clients, mn, if way == 8 { "-shared" } else { "" }), o, move || {
                    let (_s, pre) = no_sched(|| {
                        let x = if way == 8 { server(&[l, l], clients, 0, 8) } else { server(&[l], clients, 0, 0) };
                        settle(100);
                        x
                    });
                    let ctx = |e: &str| format!("limit {:?}, {} simultaneous clients: {}", l, clients, e);
                    let t0 = now_ms();
                    let mut cs: Vec<Cl> = (0..clients).map(|i| {
                        let c = Cl::from(0x0A000001 + i as u32, 1000);
                        c.send(&request(if way == 8 { i } else { 0 }, i, ""));
                        c
                    }).collect();
                    for (i, c) in cs.iter_mut().enumerate() {
                        match c.next(2000) {
                            Ok(r) if r.body == format!("{}-{}", if way == 8 { i } else { 0 }, i).as_bytes() => {}
                            x => return fail("answer", ctx(&format!("client {}: {:?}", i, x))),
                        }
                    }
                    no_sched(|| {
                        for c in &cs {
                            c.p.close();
                        }
                        let t: Vec<u64> = ADM.get().iter().map(|a| a.2).collect();
                        quota(&t, l, &ctx)?;
                        prompt(&t, &vec![t0; clients], &pre[0], l, &ctx)?;
                        no_panics()?;
                        Ok(hash_str(&format!("{:?}", ADM.get().iter().map(|a| a.1).collect::<Vec<_>>())))
                    })
                });
            }
        }
    }
}

fn nth_fixed(k: u64, n: usize, mut x: u64) -> Vec<usize> {
    (0..n).map(|_| { let v = (x % k) as usize; x /= k; v }).collect()
}

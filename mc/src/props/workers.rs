//! P34-P36: what the pool's threads are, what happens when the system refuses threads or descriptors,
//! and where a server listens.
use super::pool::*;
use super::req::nth;
use crate::explore::*;
use crate::http::*;
use crate::net::*;
use crate::rt::*;
use crate::run::Run;
use starry::utils::concurrent::ThreadPool;
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};

/// Stack size of the calling thread.
fn stack() -> usize {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        if libc::pthread_getattr_np(libc::pthread_self(), &mut a) != 0 {
            return 0;
        }
        let (mut p, mut n) = (std::ptr::null_mut(), 0usize);
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        n
    }
}

type Seen = Arc<Mutex<Vec<(String, usize)>>>;

fn note(seen: &Seen) {
    seen.lock().unwrap().push((std::thread::current().name().unwrap_or("").to_string(), stack()));
}

/// `size` tasks that are only finished when all of them run: the threads they run on.
fn on_all(pool: &ThreadPool, t: &Arc<Track>, base: usize, size: usize) -> Result<Vec<(String, usize)>, Verdict> {
    let seen: Seen = Arc::new(Mutex::new(vec![]));
    let ids: Vec<usize> = (base..base + size).collect();
    for &i in &ids {
        let s = seen.clone();
        let f = task(t, i, Kind::Meet(size), None);
        if !glue::execute(pool, Box::new(move || {
            note(&s);
            f()
        })) {
            return fail("refused-early", "refused with queue space left");
        }
    }
    if !all_done(t, &ids) {
        return fail("lost-task", format!("{} mutually dependent tasks on {} workers: {}", size, size, describe_threads()));
    }
    let v = seen.lock().unwrap().clone();
    Ok(v)
}

fn check_threads(what: &str, prefix: Option<&str>, want: usize, got: &[(String, usize)]) -> Result<(), Verdict> {
    let mut names: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
    if let Some(p) = prefix {
        for n in &names {
            let rest = n.strip_prefix(p);
            if !rest.map_or(false, |r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit())) {
                return fail("name", format!("{}: a worker is called {:?}, configured prefix {:?}", what, n, p));
            }
        }
        names.sort();
        names.dedup();
        if names.len() != got.len() {
            return fail("same-name", format!("{}: {} tasks ran at once on workers called {:?}", what, got.len(), names));
        }
    }
    for (n, s) in got {
        if *s + 4096 <= want {
            return fail("stack", format!("{}: worker {:?} has a stack of {} bytes, configured {}", what, n, s, want));
        }
    }
    Ok(())
}

const STD_STACK: usize = 2 << 20;
const PREFIXES: [&str; 9] = ["", "w", "test-", "my pool ", "a-rather-long-prefix-that-exceeds-what-the-kernel-keeps-", "池-", "7", "w-0", "%s{}"];
const STACKS: [usize; 7] = [0, 16384, 65_536, 100_001, 1 << 20, 8_000_000, 64 << 20];

/// way 0: builder, 1: new_custom, 2: new_with_name, 3: new, 4: a builder used for the second time
fn make(way: usize, prefix: &str, size: usize, st: usize) -> (ThreadPool, Option<String>, usize) {
    let p = prefix.to_string();
    match way {
        0 => (ThreadPool::builder().stack_size(st).name_prefix(prefix).task_count(64).pool_size(size).create().unwrap(), Some(p), st),
        1 => (ThreadPool::new_custom(p.clone(), size, st, 64).unwrap(), Some(p), st),
        2 => (ThreadPool::new_with_name(p.clone(), size).unwrap(), Some(p), 0),
        3 => (ThreadPool::new(size).unwrap(), None, 0),
        _ => {
            let mut b = ThreadPool::builder();
            b.pool_size(size + 2).name_prefix("other-").stack_size(1 << 22).task_count(3);
            let first = b.create().unwrap();
            b.pool_size(size).name_prefix(prefix).stack_size(st).task_count(64);
            let second = b.create().unwrap();
            drop(first);
            (second, Some(p), st)
        }
    }
}

fn as_configured(way: usize, prefix: &str, size: usize, st: usize, panics: usize) -> Res {
    let t = Track::new();
    let (pool, prefix, st) = make(way, prefix, size, st);
    let what = format!("way {} size {} stack {} after {} panics", way, size, st, panics);
    if pool.size() != size {
        return fail("size", format!("{}: size() is {}", what, pool.size()));
    }
    let want = if st == 0 { STD_STACK } else { st };
    let first = on_all(&pool, &t, 0, size)?;
    check_threads(&what, prefix.as_deref(), want, &first)?;
    for k in 0..panics {
        // simultaneous failures: as many tasks as workers, the first ones panic
        let f = task(&t, size + k, Kind::Panic, None);
        if !glue::execute(&pool, f) {
            return fail("refused-early", "refused with queue space left");
        }
        if k % 2 == 1 {
            all_done(&t, &[size + k]);
        }
    }
    settle(5);
    let again = on_all(&pool, &Track::new(), 0, size)?;
    check_threads(&format!("{} (later)", what), prefix.as_deref(), want, &again)?;
    drop(pool);
    gone(0)?;
    Ok(0)
}

pub fn p34(r: &mut Run) {
    r.assume("stack sizes are read back from the running threads; the default is Rust's standard stack of 2 MiB");
    let max = if r.thorough { 12 } else { 5 };
    let n = 5 * PREFIXES.len() as u64 * max * STACKS.len() as u64 * 4;
    let o = Opts { steps: 20_000_000, secs: 200, hang_secs: 60, ..Default::default() };
    r.enumerate("configurations", n, 1, o.clone(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let mut x = it;
            let mut take = |n: u64| {
                let v = x % n;
                x /= n;
                v as usize
            };
            let (way, p, st, panics, size) = (take(5), take(9), take(7), take(4), take(max) + 1);
            if way == 2 && st != 0 || way == 3 && (st != 0 || p != 0) || st == 6 && size > 6 {
                continue;
            }
            as_configured(way, PREFIXES[p], size, STACKS[st], [0, 1, 2, 7][panics])?;
        }
        Ok(0)
    });
    // hundreds of replacements in one pool's life
    let n = if r.thorough { 600 } else { 300 };
    r.enumerate("long-histories", 5 * 4 * 3, 1, o.clone(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            as_configured((it % 5) as usize, PREFIXES[(it % 2) as usize + 1], [1, 2, 3, 8][(it / 5 % 4) as usize], 0, [n, n / 3, 11][(it / 20) as usize])?;
        }
        Ok(0)
    });
    // the default pool: the machine's processors, all usable at once
    r.enumerate("default", 3, 1, o.clone(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let pool = match it {
                0 => ThreadPool::default().unwrap(),
                1 => ThreadPool::builder().create().unwrap(),
                _ => ThreadPool::builder().name_prefix("d-").create().unwrap(),
            };
            let n = pool.size();
            if n == 0 || n > 200 {
                return fail("size", format!("a default pool has {} workers", n));
            }
            let t = Track::new();
            let l = on_all(&pool, &t, 0, n)?;
            check_threads("default pool", if it == 2 { Some("d-") } else { None }, STD_STACK, &l)?;
            // the documented default queue holds 100 tasks
            let g = Track::new();
            for i in 0..n {
                if !glue::execute(&pool, task(&g, i, Kind::Gate, None)) {
                    return fail("refused-early", "refused by an idle pool");
                }
            }
            settle(5);
            let mut k = 0;
            while glue::execute(&pool, Box::new(|| {})) {
                k += 1;
                if k > 1000 {
                    break;
                }
            }
            if k != 100 {
                return fail("queue", format!("a default pool queues {} tasks, documented 100", k));
            }
            g.open_gate();
            drop(pool);
            gone(0)?;
        }
        Ok(0)
    });
    // Thread::spawn*: the function runs exactly once on a thread as asked for; join gives its result
    r.enumerate("threads", 3 * PREFIXES.len() as u64 * STACKS.len() as u64 * 3, 1, o, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            one_thread((it % 3) as usize, PREFIXES[(it / 3 % 9) as usize], STACKS[(it / 27 % 7) as usize], (it / 189) as usize)?;
        }
        Ok(0)
    });
    let b = if r.thorough { 3 } else { 2 };
    for way in 0..3usize {
        r.explore(&format!("thread-schedules-{}", way), Opts { bound: b, mask: K_ALL, steps: 60_000, ..Default::default() }, move || {
            one_thread(way, "n", 65_536, 0)?;
            one_thread(way, "n", 65_536, 1)
        });
    }
    for panics in [0usize, 1, 2] {
        r.explore(&format!("names-schedules-{}", panics), Opts { bound: b, mask: K_REDUCED, steps: 200_000, ..Default::default() }, move || {
            let t = Track::new();
            let pool = mk(2, 16, panics == 1);
            for k in 0..panics {
                glue::execute(&pool, task(&t, 100 + k, Kind::Panic, None));
            }
            let l = on_all(&pool, &t, 0, 2)?;
            check_threads("after panics", Some("w"), STD_STACK, &l)?;
            Ok(0)
        });
    }
}

/// kind 0: returns, 1: panics, 2: runs long
fn one_thread(way: usize, name: &str, st: usize, kind: usize) -> Res {
    let seen: Seen = Arc::new(Mutex::new(vec![]));
    let s = seen.clone();
    let j = match glue::spawn(way, name, st, Box::new(move || {
        if kind == 2 {
            settle(1000);
        }
        app_point();
        note(&s);
        if kind == 1 {
            panic!("thread panics");
        }
        4711
    })) {
        Some(j) => j,
        None => return fail("refused", "a thread that can be created was refused"),
    };
    let got = j.join();
    match (kind, &got) {
        (1, Err(e)) if e.downcast_ref::<&str>() == Some(&"thread panics") => {}
        (0, Ok(4711)) | (2, Ok(4711)) => {}
        _ => return fail("join", format!("way {} kind {}: join gives {:?}", way, kind, got.map_err(|_| "a panic"))),
    }
    settle(1);
    let l = seen.lock().unwrap().clone();
    if l.len() != 1 {
        return fail("not-once", format!("the function ran {} times", l.len()));
    }
    if way > 0 && l[0].0 != name {
        return fail("name", format!("thread called {:?}, asked for {:?}", l[0].0, name));
    }
    let want = if way < 2 || st == 0 { STD_STACK } else { st };
    if l[0].1 + 4096 <= want {
        return fail("stack", format!("thread has a stack of {} bytes, asked for {}", l[0].1, want));
    }
    Ok(0)
}

// ------------------------------------------------------------------ P35
/// Creating a pool of `size` while the requests for threads in `mask` are refused.
fn refused_creation(size: usize, mask: u64, way: usize) -> Res {
    refuse_threads(mask);
    let got = std::panic::catch_unwind(|| match way {
        0 => ThreadPool::new(size),
        1 => ThreadPool::new_custom("w".into(), size, 65_536, 4),
        _ => ThreadPool::builder().pool_size(size).create(),
    });
    let hit = mask & ((1u64 << (size + 1)) - 1) != 0;
    refuse_threads(0);
    let got = match got {
        Err(_) => return fail("panic", format!("creating a pool of {} panics when thread {:b} is refused: {:?}", size, mask, panics())),
        Ok(g) => g,
    };
    match got {
        Err(_) if hit => {
            settle(20);
            gone(0)
        }
        Ok(pool) => {
            // a pool is only handed out when it is able to work
            let t = Track::new();
            on_all(&pool, &t, 0, size)?;
            drop(pool);
            gone(0)
        }
        Err(e) => fail("refused", format!("a pool of {} that could be created is refused: {}", size, e)),
    }?;
    // afterwards pools can be created as ever
    let pool = ThreadPool::new(size).map_err(|e| (1u8, "later-refused".to_string(), e.to_string())).or_else(|e| fail(&e.1, e.2))?;
    on_all(&pool, &Track::new(), 0, size)?;
    drop(pool);
    gone(0)?;
    Ok(0)
}

/// Tasks panic while the replacements in `mask` are refused.
fn refused_refill(size: usize, kinds: Vec<Kind>, mask: u64, early_drop: bool, quiet: bool) -> Res {
    let t = Track::new();
    let pool = mk(size, 64, quiet);
    let base = live_threads().max(size + 1);
    refuse_threads(mask);
    let mut ids = vec![];
    for (i, &k) in kinds.iter().enumerate() {
        if !glue::execute(&pool, task(&t, i, k, None)) {
            return fail("refused-early", "refused with queue space left");
        }
        ids.push(i);
    }
    if early_drop {
        drop(pool);
        verify(&t, MAXTASK, &ids, &[], size)?;
        gone(0)?;
        return Ok(0);
    }
    verify(&t, MAXTASK, &ids, &[], size)?;
    // all the attempts are over: full capacity again
    settle(2_000);
    let t2 = Track::new();
    on_all(&pool, &t2, 0, size)?;
    if live_threads() > base {
        return fail("thread-count", format!("{} pool threads, expected {}", live_threads(), base));
    }
    drop(pool);
    gone(0)?;
    Ok(0)
}

/// One pool through many rounds of panics whose replacements are refused.
fn long_refusals(size: usize, rounds: usize, mask: u64, panics: usize) -> Res {
    let pool = mk(size, 64, true);
    let base = live_threads().max(size + 1);
    for k in 0..rounds {
        let what = |e: String| format!("{} workers, round {} of refusals {:b} with {} panics: {}", size, k, mask, panics, e);
        refuse_threads(mask);
        let t = Track::new();
        let mut ids = vec![];
        for i in 0..panics + 2 {
            if !glue::execute(&pool, task(&t, i, if i < panics { Kind::Panic } else { Kind::Plain }, None)) {
                return fail("refused-early", what("refused with queue space left".into()));
            }
            ids.push(i);
        }
        verify(&t, ids.len(), &ids, &[], size).map_err(|v| Verdict { key: v.key, msg: what(v.msg) })?;
        refuse_threads(0);
        settle(2_000);
        if k % 10 == 9 || k + 1 == rounds {
            on_all(&pool, &Track::new(), 0, size).map_err(|v| Verdict { key: v.key, msg: what(v.msg) })?;
            if live_threads() > base {
                return fail("thread-count", what(format!("{} pool threads, expected {}", live_threads(), base)));
            }
        }
    }
    drop(pool);
    gone(0)?;
    Ok(0)
}

/// No thread can be had for `ms` milliseconds, in which `panics` tasks panic and others are submitted.
fn outage(size: usize, panics: usize, ms: u64) -> Res {
    let pool = mk(size, 64, true);
    let base = live_threads().max(size + 1);
    refuse_threads(u64::MAX);
    let t = Track::new();
    let mut ids = vec![];
    for i in 0..panics + 3 {
        if !glue::execute(&pool, task(&t, i, if i < panics { Kind::Panic } else { Kind::Plain }, None)) {
            return fail("refused-early", "refused with queue space left");
        }
        ids.push(i);
    }
    settle(ms);
    if panics < size && !all_done(&t, &ids) {
        return fail("lost-task", format!("{} workers, {} panics: a worker is left, but tasks wait while no thread can be created", size, panics));
    }
    refuse_threads(0);
    verify(&t, MAXTASK, &ids, &[], size)?;
    settle(2_000);
    on_all(&pool, &Track::new(), 0, size).map_err(|v| Verdict { key: v.key, msg: format!("{} workers, {} panics, no threads for {} ms: {}", size, panics, ms, v.msg) })?;
    if live_threads() > base {
        return fail("thread-count", format!("{} pool threads, expected {}", live_threads(), base));
    }
    drop(pool);
    gone(0)?;
    Ok(0)
}

const NONE: (u64, i32) = (0, 0);
static HITS: Cell<Vec<String>> = Cell::new(vec![]);

fn fault_server(pool: usize, keepalive: i64) -> starry::HttpServer {
    on_call(|c, _| {
        let p = c.req_path();
        HITS.get().push(p.clone());
        c.resp_body(format!("answer to {}", p).into_bytes());
        c.response();
    });
    let mut s = new_server(pool);
    s.set_keepalive(keepalive);
    s.router("").get("/q/:a/:b", HS[0]);
    start(&s);
    s
}

/// One kept-alive connection with `n` requests; how many were answered before the server ended it.
/// Every answer is the one to the request sent last, nothing comes unasked.
fn conversation(id: usize, n: usize, gap: u64, keepalive: u64) -> Result<usize, Verdict> {
    let mut c = Cl::new();
    let mut k = 0;
    for i in 0..n {
        c.send(format!("GET /q/{}/{} HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n", id, i).as_bytes());
        match c.next(60_000) {
            Ok(r) if r.status == 200 && r.text() == format!("answer to /q/{}/{}", id, i) => k += 1,
            Err(e) if e.starts_with("Eof") || e.starts_with("Reset") => {
                if !c.buf.is_empty() {
                    return fail("partial", format!("connection {} request {}: {}", id, i, e));
                }
                c.p.close();
                return Ok(k);
            }
            x => return fail("wrong-answer", format!("connection {} request {}: {:?}", id, i, x)),
        }
        settle(gap);
        match c.p.recv(Some(0)) {
            Got::Timeout => {}
            Got::Eof | Got::Reset => {
                c.p.close();
                return Ok(k);
            }
            Got::Data(d) => return fail("unasked", format!("connection {} after answer {}: the server sends {:?} unasked", id, i, show(&d))),
        }
    }
    // idle: closed in time
    if let Err(e) = c.closed(keepalive + 150) {
        return fail("not-closed", format!("connection {} is idle for more than its {} ms: {}", id, keepalive, e));
    }
    c.p.close();
    Ok(k)
}

fn faulty_server(conns: usize, reqs: usize, workers: usize, threads: u64, dups: u64, accepts: (u64, i32)) -> Res {
    faulty_rounds(1, conns, reqs, workers, |_| (threads, dups, accepts))
}
/// The same several times in one server's life.
fn faulty_rounds(rounds: usize, conns: usize, reqs: usize, workers: usize, faults: impl Fn(usize) -> (u64, u64, (u64, i32))) -> Res {
    let s = no_sched(|| fault_server(workers, 200));
    settle(5);
    let base = live_threads();
    HITS.get().clear();
    for k in 0..rounds {
        let (threads, dups, accepts) = faults(k);
        one_round(k * 1000, conns, reqs, threads, dups, accepts).map_err(|v| if rounds > 1 { Verdict { key: v.key, msg: format!("round {}: {}", k, v.msg) } } else { v })?;
    }
    settle(500);
    if open_streams() != 0 {
        return fail("socket-left", format!("{} connections are still open", open_streams()));
    }
    if live_threads() > base {
        return fail("thread-left", format!("{} threads, expected {}: {}", live_threads(), base, describe_threads()));
    }
    // every worker still serves: as many simultaneous idle connections as workers, each answered
    let mut l = vec![];
    for i in 0..workers {
        let mut c = Cl::new();
        c.send(format!("GET /q/x/{} HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n", i).as_bytes());
        match c.next(150) {
            Ok(r) if r.status == 200 => l.push(c),
            x => return fail("worker-lost", format!("connection {} of {} held open at once: {:?}", i + 1, workers, x)),
        }
    }
    no_panics()?;
    drop(s);
    Ok(0)
}
fn one_round(base: usize, conns: usize, reqs: usize, threads: u64, dups: u64, accepts: (u64, i32)) -> Result<(), Verdict> {
    refuse_threads(threads);
    net().refuse_dups = dups;
    net().dups = 0;
    net().refuse_accepts = accepts.0;
    net().accepts = 0;
    net().accept_errno = accepts.1;
    let mut short = 0;
    for c in 0..conns {
        if conversation(base + c, reqs, 3, 200)? < reqs {
            short += 1;
        }
    }
    let faults = (threads & ((1u64 << creates()) - 1)).count_ones() + (dups & ((1u64 << net().dups.min(63)) - 1)).count_ones();
    if short > faults {
        return fail("cut-short", format!("{} refused resources cost {} connections", faults, short));
    }
    // nobody is refused anything any more
    refuse_threads(0);
    net().refuse_dups = 0;
    net().refuse_accepts = 0;
    let mut seen = HITS.get().clone();
    let total = seen.len();
    seen.sort();
    seen.dedup();
    if seen.len() != total {
        return fail("handled-twice", format!("{:?}", HITS.get()));
    }
    for c in 0..2 {
        let k = conversation(base + 100 + c, reqs, 3, 200)?;
        if k != reqs {
            return fail("not-recovered", format!("after the faults a connection is ended after {} of {} requests", k, reqs));
        }
    }
    Ok(())
}

pub fn p35(r: &mut Run) {
    use Kind::*;
    r.assume("a refused thread is pthread_create returning EAGAIN, a refused descriptor is the duplication of a socket failing with EMFILE; every pattern of refusals among the first requests is explored");
    let max = if r.thorough { 10u64 } else { 8 };
    let o = || Opts { steps: 20_000_000, secs: 200, hang_secs: 60, ..Default::default() };
    // creation: every pattern of refusals
    let mut cs = vec![];
    for size in 1..=max {
        for mask in 0..1u64 << (size + 1) {
            for way in 0..3 {
                cs.push((size as usize, mask, way));
            }
        }
    }
    r.enumerate("creation", cs.len() as u64, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (s, m, w) = cs[it as usize];
            refused_creation(s, m, w)?;
        }
        Ok(0)
    });
    r.explore("creation-schedules", Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_REDUCED, steps: 60_000, ..Default::default() }, || {
        let size = 1 + choose(2);
        let at = choose(size + 1);
        refused_creation(size, 1 << at, 0)
    });
    // replacements: every pattern over the first attempts
    let bits = if r.thorough { 8 } else { 7 };
    let mut rs = vec![];
    for size in 1..=3usize {
        for len in 1..=4usize {
            for k in 0..1u64 << len {
                let kinds: Vec<Kind> = (0..len).map(|i| if k >> i & 1 == 1 { Panic } else { Plain }).collect();
                if k == 0 {
                    continue;
                }
                for mask in 0..1u64 << bits {
                    for early in [false, true] {
                        rs.push((size, kinds.clone(), mask, early));
                    }
                }
            }
        }
    }
    r.enumerate("replacement", rs.len() as u64, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (s, k, m, e) = rs[it as usize].clone();
            refused_refill(s, k, m, e, true)?;
        }
        Ok(0)
    });
    for (name, size, kinds, mask) in [
        ("replacement-schedules-1", 1usize, vec![Panic, Plain], 1u64),
        ("replacement-schedules-2", 2, vec![Panic, Plain, Plain], 1),
        ("replacement-schedules-twice", 2, vec![Panic, Panic, Plain], 3),
        ("replacement-schedules-second", 1, vec![Panic, Panic, Plain], 2),
    ] {
        for early in [false, true] {
            let kinds = kinds.clone();
            r.explore(&format!("{}{}", name, if early { "-drop" } else { "" }), Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_REDUCED, steps: 400_000, ..Default::default() }, move || {
                refused_refill(size, kinds.clone(), mask, early, true)
            });
        }
    }
    // many rounds of refusals in one pool's life, long times without any thread
    let rounds = if r.thorough { 2000 } else { 300 };
    let mut rs = vec![];
    for size in [1usize, 2, 3, 8] {
        for mask in [1u64, 2, 3, 5, 15, 0x7f] {
            for panics in [1usize, 2, size, 2 * size] {
                rs.push((size, mask, panics, 0u64));
            }
        }
        for panics in 0..=size + 1 {
            for ms in [50, 1_000, 20_000, if r.thorough { 600_000 } else { 60_000 }] {
                rs.push((size, 0, panics, ms));
            }
        }
    }
    r.enumerate("long-histories", rs.len() as u64, 1, Opts { steps: 80_000_000, ..o() }, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (s, m, p, ms) = rs[it as usize];
            if ms == 0 {
                long_refusals(s, rounds, m, p)?;
            } else {
                outage(s, p, ms)?;
            }
        }
        Ok(0)
    });
    // many refused creations, then one that is not
    r.enumerate("long-creation", 8, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            for k in 0..rounds as u64 * 3 {
                refused_creation(1 + it as usize, 1 << (k % (it + 1)), (k % 3) as usize)?;
            }
            refused_creation(1 + it as usize, 0, 0)?;
        }
        Ok(0)
    });
    // single threads
    r.enumerate("threads", 3, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            refuse_threads(1);
            if glue::spawn(it as usize, "n", 0, Box::new(|| 1)).is_some() {
                return fail("spawn", "a refused thread is reported as started");
            }
            match glue::spawn(it as usize, "n", 0, Box::new(|| 1)).map(|j| j.join()) {
                Some(Ok(1)) => {}
                _ => return fail("spawn", "a thread after a refused one does not run"),
            }
            if !panics().is_empty() {
                return fail("panic", format!("{:?}", panics()));
            }
        }
        Ok(0)
    });
    // a server whose keep-alive timers and descriptors are refused
    let bits = if r.thorough { 14 } else { 12 };
    r.enumerate("server-descriptors", (1u64 << bits) * 4, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (c, n) = [(2usize, 2usize), (1, 4), (3, 1), (2, 3)][(it % 4) as usize];
            faulty_server(c, n, 1 + (it % 2) as usize, 0, it / 4, NONE)?;
        }
        Ok(0)
    });
    r.enumerate("server-threads", 64 * 4 * 3, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (c, n) = [(2usize, 2usize), (1, 4), (5, 1), (4, 3)][(it % 4) as usize];
            faulty_server(c, n, 1 + (it / 4 % 3) as usize, it / 12, 0, NONE)?;
        }
        Ok(0)
    });
    r.enumerate("server-both", 16 * 256, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            faulty_server(3, 2, 2, it % 16, it / 16, NONE)?;
        }
        Ok(0)
    });
    // accepting fails (the connection stays in the backlog): with each reason the system has for it
    let why = [libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ECONNABORTED, libc::EPERM, libc::EINTR, libc::EAGAIN];
    r.enumerate("server-accepts", 64 * 4 * why.len() as u64, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (c, n) = [(2usize, 2usize), (1, 4), (5, 1), (4, 3)][(it % 4) as usize];
            faulty_server(c, n, 1 + (it / 4 % 3) as usize, 0, 0, (it / 28, why[(it / 4 % 7) as usize]))?;
        }
        Ok(0)
    });
    // many rounds of faults in one server's life
    let pats: [(u64, u64, (u64, i32)); 8] = [(0, 1, NONE), (0, 2, NONE), (1, 0, NONE), (0, 0, (1, libc::EMFILE)), (1, 6, NONE), (0, 0, (7, libc::ENOBUFS)), (0, 5, (2, libc::ECONNABORTED)), (3, 3, (3, libc::EMFILE))];
    let pats = &pats;
    r.enumerate("server-long", 9 * 4, 1, Opts { steps: 80_000_000, ..o() }, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            // one pattern again and again, or all in turn
            faulty_rounds(rounds, 2, 2, [1, 2, 3, 8][(it % 4) as usize], |k| pats[if it / 4 == 8 { k % 8 } else { (it / 4) as usize }])?;
        }
        Ok(0)
    });
    r.explore("server-schedules", Opts { bound: if r.thorough { 3 } else { 2 }, mask: K_COARSE, steps: 2_000_000, ..Default::default() }, || {
        let d = choose(7);
        let (t, d) = if d == 0 { (1, 0) } else { (0, 1u64 << (d - 1)) };
        faulty_server(1, 2, 1, t, d, NONE)
    });
}

// ------------------------------------------------------------------ P36
const FREE: [u16; 2] = [9001, 9002];
const FOREIGN: u32 = 0x0a090807;

/// States of an address: 0/1 free, 2 in use by another server, 3 not this machine's, 4 cannot be listened on.
fn addr(k: usize) -> SocketAddr {
    match k {
        0 | 1 => (Ipv4Addr::UNSPECIFIED, FREE[k]).into(),
        2 => (Ipv4Addr::LOCALHOST, 7000).into(),
        3 => (Ipv4Addr::from(FOREIGN), 9003).into(),
        _ => (Ipv4Addr::LOCALHOST, 7001).into(),
    }
}

static FAILED: Cell<Vec<Option<String>>> = Cell::new(vec![]);

/// Listen in a thread of its own; FAILED[n] tells when and how `listener` returned.
fn listen(s: &starry::HttpServer, addrs: Vec<SocketAddr>, text: Option<String>) -> usize {
    let n = FAILED.get().len();
    FAILED.get().push(None);
    let s = s.clone();
    spawn_harness(move || {
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match text {
            Some(t) => glue::listen_text(&s, &t),
            None => glue::listen_at(&s, &addrs),
        }));
        FAILED.get()[n] = Some(match x {
            Ok(Ok(())) => "returned Ok".into(),
            Ok(Err(e)) => format!("error {}", e),
            Err(_) => format!("panicked: {:?}", panics()),
        });
        notify_app();
    });
    settle(5);
    n
}

fn asks(port: u16, path: &str, want: &str) -> Result<(), Verdict> {
    set_port(port);
    let got = once(&get(path));
    set_port(PORT);
    match got {
        Ok(r) if r.status == 200 && r.text() == want => Ok(()),
        x => fail("not-served", format!("port {} path {}: expected {:?}, got {:?}; listeners ended: {:?}", port, path, want, x, FAILED.get())),
    }
}

fn listening(port: u16) -> bool {
    net().listeners.iter().any(|l| l.open && l.port == port)
}

fn named() {
    on_call(|c, tag| {
        if let Tag::H(n) = tag {
            c.resp_body(format!("server {}", n).into_bytes());
        }
        c.response();
    });
}
fn other() -> starry::HttpServer {
    let s = new_server(1);
    s.router("").get("/who", HS[9]);
    start_on(&s, 7000);
    net().foreign.push(FOREIGN);
    net().unlistenable.push(7001);
    s
}

fn addresses(l: &[usize]) -> Res {
    named();
    let _o = other();
    let s = new_server(2);
    s.router("").get("/who", HS[1]);
    let base = live_threads();
    let n = listen(&s, l.iter().map(|&k| addr(k)).collect(), None);
    let first = l.iter().find(|&&k| k < 2).copied();
    match first {
        Some(k) => {
            if let Some(e) = &FAILED.get()[n] {
                return fail("not-listening", format!("addresses {:?}: {}", l, e));
            }
            for f in 0..2 {
                if listening(FREE[f]) != (f == k) {
                    return fail("wrong-address", format!("addresses {:?}: port {} listening: {}", l, FREE[f], listening(FREE[f])));
                }
            }
            asks(FREE[k], "/who", "server 1")?;
        }
        None => {
            match &FAILED.get()[n] {
                Some(e) if e.starts_with("error ") && e.len() > 6 => {}
                x => return fail("no-error", format!("addresses {:?}, none usable: listener {:?}", l, x)),
            }
            rt().sched_on = false;
            settle(100);
            if live_threads() != base {
                return fail("threads-left", format!("addresses {:?}: {} threads stay behind: {}", l, live_threads() - base, describe_threads()));
            }
            // the same server can still be started elsewhere
            let m = listen(&s, vec![addr(0)], None);
            if let Some(e) = &FAILED.get()[m] {
                return fail("not-listening", format!("second attempt: {}", e));
            }
            asks(FREE[0], "/who", "server 1")?;
        }
    }
    asks(7000, "/who", "server 9")?;
    no_panics()?;
    Ok(0)
}

pub fn p36(r: &mut Run) {
    r.assume("IPv4 addresses; an address is free, used by another server, not the machine's, or refuses at listen; names resolve to one address each");
    let o = || Opts { steps: 5_000_000, secs: 200, hang_secs: 60, ..Default::default() };
    let len = if r.thorough { 5u32 } else { 4 };
    let n: u64 = (0..=len).map(|l| 5u64.pow(l)).sum();
    r.enumerate("addresses", n, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            addresses(&nth(5, it))?;
        }
        Ok(0)
    });
    // ways to write an address
    let texts: [(&str, Option<u16>); 12] = [
        ("127.0.0.1:9001", Some(9001)), ("0.0.0.0:9002", Some(9002)), ("here.test:9001", Some(9001)), ("nowhere.test:9001", None),
        ("127.0.0.1", None), ("", None), (":9001", None), ("127.0.0.1:", None), ("127.0.0.1:99999", None), ("127.0.0.1:7000", None),
        ("0.0.0.0:1", Some(1)), ("127.0.0.1:65535", Some(65535)),
    ];
    r.enumerate("texts", texts.len() as u64, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            let (t, want) = texts[it as usize];
            named();
            let _o = other();
            net().hosts.insert("here.test".into(), 0x7f000001);
            let s = new_server(2);
            s.router("").get("/who", HS[1]);
            let base = live_threads();
            let n = listen(&s, vec![], Some(t.to_string()));
            match (want, &FAILED.get()[n]) {
                (Some(p), None) => asks(p, "/who", "server 1")?,
                (None, Some(e)) if e.starts_with("error ") => {
                    settle(100);
                    if live_threads() != base {
                        return fail("threads-left", format!("{:?}: {}", t, describe_threads()));
                    }
                }
                (w, x) => return fail("listen", format!("{:?}: expected port {:?}, listener {:?}", t, w, x)),
            }
            asks(7000, "/who", "server 9")?;
            no_panics()?;
        }
        Ok(0)
    });
    // port 0: a port the system chooses
    r.enumerate("any-port", 4, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            named();
            let mut ports = vec![];
            let mut ss = vec![];
            for i in 0..=it as usize {
                let s = new_server(1);
                s.router("").get("/who", HS[i]);
                let before: Vec<u16> = net().listeners.iter().map(|l| l.port).collect();
                let n = listen(&s, vec![(Ipv4Addr::LOCALHOST, 0).into()], None);
                if let Some(e) = &FAILED.get()[n] {
                    return fail("not-listening", format!("port 0: {}", e));
                }
                ports.extend(net().listeners.iter().map(|l| l.port).filter(|p| !before.contains(p)));
                ss.push(s);
            }
            for (i, p) in ports.iter().enumerate() {
                asks(*p, "/who", &format!("server {}", i))?;
            }
            if ports.len() != it as usize + 1 {
                return fail("not-listening", format!("{} servers listen on {:?}", it + 1, ports));
            }
            no_panics()?;
        }
        Ok(0)
    });
    // several servers in one process, one server on several ports: every order of requests
    r.enumerate("several", 3u64.pow(6) * 4, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            several(&nth_fixed(3, 6, it / 4), it % 2 == 1, it / 2 % 2 == 1)?;
        }
        Ok(0)
    });
    r.explore("several-schedules", Opts { bound: if r.thorough { 2 } else { 1 }, mask: K_REDUCED, steps: 400_000, ..Default::default() }, || {
        no_sched(|| several(&[], false, false))?;
        let mut cs = vec![];
        for p in 0..3u16 {
            set_port(9100 + p);
            let c = Cl::new();
            c.send(&get("/who"));
            cs.push(c);
        }
        for (p, c) in cs.iter_mut().enumerate() {
            match c.next(5000) {
                Ok(r) if r.text() == format!("server {}", p) => {}
                x => return fail("wrong-server", format!("port {}: {:?}", 9100 + p, x)),
            }
        }
        no_panics()?;
        Ok(0)
    });
    // many of them, each with a route of its own, configured differently
    let top = if r.thorough { 40u64 } else { 20 };
    r.enumerate("many", top * 4, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            named();
            let (n, same, late) = ((it % top) as usize + 1, it / top % 2 == 1, it / top / 2 == 1);
            let mut ss: Vec<starry::HttpServer> = vec![];
            for i in 0..n {
                let mut s = if same && i > 0 { ss[0].clone() } else { new_server(1 + i % 3) };
                if !same {
                    s.set_keepalive(100 + i as i64);
                    if i % 2 == 1 {
                        s.set_compress();
                    }
                }
                let reg = |s: &starry::HttpServer| {
                    if !same || i == 0 {
                        s.router("").get("/who", HS[i]);
                        s.router("/own").get(&format!("/r{}", i), HS[i]);
                    }
                };
                if !late {
                    reg(&s);
                }
                listen(&s, vec![(Ipv4Addr::UNSPECIFIED, 9100 + i as u16).into()], None);
                if late {
                    reg(&s);
                }
                ss.push(s);
            }
            for i in 0..n {
                let me = if same { 0 } else { i };
                asks(9100 + i as u16, "/who", &format!("server {}", me))?;
                asks(9100 + i as u16, &format!("/own/r{}", me), &format!("server {}", me))?;
                if n > 1 {
                    let other = if same { 1 } else { (i + 1) % n };
                    set_port(9100 + i as u16);
                    let got = once(&get(&format!("/own/r{}", other)));
                    set_port(PORT);
                    if !matches!(&got, Ok(r) if r.status == 404) {
                        return fail("wrong-server", format!("{} servers: number {} answers for a route of number {}: {:?}", n, i, other, got));
                    }
                }
            }
            no_panics()?;
        }
        Ok(0)
    });
    // a server cannot be started because the system refuses threads
    r.enumerate("refused", 3 * 16, 1, o(), |lo, hi| {
        for it in lo..hi {
            at_item(it);
            named();
            let _o = other();
            let workers = 1 + (it % 3) as usize;
            let mask = it / 3;
            let s = new_server(workers);
            s.router("").get("/who", HS[1]);
            let base = live_threads();
            refuse_threads(mask);
            let n = listen(&s, vec![addr(0)], None);
            refuse_threads(0);
            if mask & ((1 << (workers + 1)) - 1) == 0 {
                asks(FREE[0], "/who", "server 1")?;
            } else {
                match &FAILED.get()[n] {
                    Some(e) if e.starts_with("error ") => {}
                    x => return fail("no-error", format!("{} workers, threads {:b} refused: listener {:?}", workers, mask, x)),
                }
                settle(100);
                if live_threads() != base || listening(FREE[0]) {
                    return fail("threads-left", format!("{} threads more than before, listening {}", live_threads() - base, listening(FREE[0])));
                }
            }
            asks(7000, "/who", "server 9")?;
        }
        Ok(0)
    });
}

fn nth_fixed(base: u64, len: usize, mut i: u64) -> Vec<usize> {
    (0..len)
        .map(|_| {
            let d = (i % base) as usize;
            i /= base;
            d
        })
        .collect()
}

/// Three listeners on ports 9100..9102: three servers with the same path (or one server on all three).
fn several(order: &[usize], same: bool, clones: bool) -> Res {
    named();
    let mut ss: Vec<starry::HttpServer> = vec![];
    for i in 0..3usize {
        let s = if same && i > 0 { ss[0].clone() } else { new_server(1 + i) };
        if !same || i == 0 {
            s.router("").get("/who", HS[i]);
        }
        let t = if clones { s.clone() } else { s };
        listen(&t, vec![(Ipv4Addr::UNSPECIFIED, 9100 + i as u16).into()], None);
        ss.push(t);
    }
    for &p in order {
        asks(9100 + p as u16, "/who", &format!("server {}", if same { 0 } else { p }))?;
    }
    no_panics()?;
    Ok(0)
}

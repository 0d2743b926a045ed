//! P01-P04: the thread pool under every schedule with a bounded number of deviations.
use super::req::{nstr, nth};
use crate::explore::*;
use crate::rt::*;
use crate::run::Run;
use starry::utils::concurrent::ThreadPool;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub(super) const MAXTASK: usize = 640;

pub struct Track {
    started: [AtomicUsize; MAXTASK],
    done: [AtomicUsize; MAXTASK],
    running: AtomicUsize,
    pub(super) max_running: AtomicUsize,
    gate: AtomicUsize,
    met: AtomicUsize,
}

impl Track {
    pub(super) fn new() -> Arc<Track> {
        Arc::new(Track {
            started: std::array::from_fn(|_| AtomicUsize::new(0)),
            done: std::array::from_fn(|_| AtomicUsize::new(0)),
            running: AtomicUsize::new(0),
            max_running: AtomicUsize::new(0),
            gate: AtomicUsize::new(0),
            met: AtomicUsize::new(0),
        })
    }
    fn total_started(&self) -> usize {
        self.started.iter().map(|x| x.load(SeqCst)).sum()
    }
    fn enter(&self, i: usize) {
        self.started[i].fetch_add(1, SeqCst);
        let r = self.running.fetch_add(1, SeqCst) + 1;
        self.max_running.fetch_max(r, SeqCst);
        notify_app();
        app_point();
    }
    fn leave(&self, i: usize) {
        self.running.fetch_sub(1, SeqCst);
        self.done[i].fetch_add(1, SeqCst);
        notify_app();
    }
    pub(super) fn open_gate(&self) {
        self.gate.store(1, SeqCst);
        notify_app();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Kind {
    Plain,
    Gate,           // waits until the gate opens
    Meet(usize),    // barrier of k such tasks (groups form in order of arrival)
    Panic,
    Submit(usize),  // submits task i (plain) from inside the task
    With(u8),       // panics with another payload, or in another way
    Unwind(usize),  // panics, and submits task i (plain) while unwinding
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

pub(super) fn task(t: &Arc<Track>, i: usize, k: Kind, pool: Option<Arc<ThreadPool>>) -> Box<dyn FnOnce() + Send + 'static> {
    let t = t.clone();
    Box::new(move || {
        t.enter(i);
        match k {
            Kind::Plain => {}
            Kind::Gate => {
                let t2 = t.clone();
                wait_until(Some(60_000), "task: gate", move || t2.gate.load(SeqCst) != 0);
            }
            Kind::Meet(n) => {
                let a = t.met.fetch_add(1, SeqCst);
                notify_app();
                let t2 = t.clone();
                wait_until(Some(60_000), "task: meet", move || t2.met.load(SeqCst) >= (a / n + 1) * n);
            }
            Kind::Panic => {
                t.leave(i);
                panic!("task panics");
            }
            Kind::With(how) => {
                t.leave(i);
                match how {
                    0 => panic!("task {} panics", i),
                    1 => std::panic::panic_any(7u32),
                    2 => std::panic::panic_any(std::sync::Arc::new(i)),
                    3 => std::panic::resume_unwind(Box::new("no hook")),
                    4 => {
                        let v: Vec<usize> = Vec::new();
                        let _ = v[std::hint::black_box(i)];
                    }
                    5 => {
                        // a panic of its own that the task catches, then another
                        let _ = std::panic::catch_unwind(|| panic!("inner"));
                        let _: usize = None.expect("outer");
                    }
                    6 => {
                        // caught: this task does not panic
                        let _ = std::panic::catch_unwind(|| panic!("inner"));
                    }
                    _ => std::panic::panic_any(()),
                }
                return;
            }
            Kind::Unwind(j) => {
                let p = pool.unwrap();
                let t2 = t.clone();
                let _g = OnDrop(move || {
                    let ok = glue::execute(&p, task(&t2, j, Kind::Plain, None));
                    if !ok {
                        t2.done[j].fetch_add(100, SeqCst);
                    }
                });
                t.leave(i);
                panic!("task panics");
            }
            Kind::Submit(j) => {
                let p = pool.unwrap();
                assert!(glue::execute(&p, task(&t, j, Kind::Plain, None)), "inner submission refused");
            }
        }
        t.leave(i);
    })
}

pub(super) fn mk(size: usize, q: usize, quiet: bool) -> ThreadPool {
    let f = || {
        let mut b = ThreadPool::builder();
        b.pool_size(size).task_count(q).name_prefix("w");
        let p = b.create().unwrap();
        if quiet {
            settle(1);
        }
        p
    };
    if quiet {
        no_sched(f)
    } else {
        f()
    }
}

/// wait for quiescence of all tasks in `ids`
pub(super) fn all_done(t: &Arc<Track>, ids: &[usize]) -> bool {
    let t2 = t.clone();
    let ids = ids.to_vec();
    wait_until(Some(20_000), "main: all done", move || ids.iter().all(|&i| t2.done[i].load(SeqCst) >= 1))
}

pub(super) fn counts(t: &Track, n: usize) -> String {
    (0..n).map(|i| format!("{}:{}/{} ", i, t.started[i].load(SeqCst), t.done[i].load(SeqCst))).collect()
}

/// every id in `ok` ran exactly once, every id in `refused` never
pub(super) fn verify(t: &Arc<Track>, n: usize, ok: &[usize], refused: &[usize], size: usize) -> Result<(), Verdict> {
    if !all_done(t, ok) {
        rt().sched_on = false;
        return fail("lost-task", format!("accepted tasks {:?} did not all run: started/done {} threads: {} panics {:?}", ok, counts(t, n), describe_threads(), panics()));
    }
    rt().sched_on = false;
    settle(20);
    for &i in ok {
        if t.started[i].load(SeqCst) != 1 {
            return fail("not-once", format!("task {} ran {} times: {}", i, t.started[i].load(SeqCst), counts(t, n)));
        }
    }
    for &i in refused {
        if t.started[i].load(SeqCst) != 0 {
            return fail("refused-ran", format!("refused task {} ran: {}", i, counts(t, n)));
        }
    }
    if t.max_running.load(SeqCst) > size {
        return fail("too-many", format!("{} tasks ran at once in a pool of size {}", t.max_running.load(SeqCst), size));
    }
    Ok(())
}

/// Submit the tasks from `subs` threads; returns (accepted, refused); checks the refusal condition when
/// there is one submitter.
fn submit_all(pool: &Arc<ThreadPool>, t: &Arc<Track>, kinds: &[Kind], subs: usize, q: usize) -> Result<(Vec<usize>, Vec<usize>), Verdict> {
    let ok = Arc::new(AtomicUsize::new(0));
    let no = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicUsize::new(0));
    let go = |me: usize, pool: Arc<ThreadPool>, t: Arc<Track>, kinds: Vec<Kind>, ok: Arc<AtomicUsize>, no: Arc<AtomicUsize>, bad: Arc<AtomicUsize>| {
        move || {
            for (i, &k) in kinds.iter().enumerate() {
                if i % subs != me {
                    continue;
                }
                let before_started = t.total_started();
                let accepted_before = ok.load(SeqCst).count_ones() as usize;
                let p = if let Kind::Submit(_) = k { Some(pool.clone()) } else { None };
                if glue::execute(&pool, task(&t, i, k, p)) {
                    ok.fetch_or(1 << i, SeqCst);
                } else {
                    // tasks accepted and not started before the call bound the queue length from above
                    if subs == 1 && accepted_before - before_started.min(accepted_before) < q {
                        bad.fetch_or(1 << i, SeqCst);
                    }
                    no.fetch_or(1 << i, SeqCst);
                }
            }
        }
    };
    let mut js = vec![];
    for me in 1..subs {
        js.push(spawn_harness(go(me, pool.clone(), t.clone(), kinds.to_vec(), ok.clone(), no.clone(), bad.clone())));
    }
    go(0, pool.clone(), t.clone(), kinds.to_vec(), ok.clone(), no.clone(), bad.clone())();
    for j in js {
        let _ = j.join();
    }
    if bad.load(SeqCst) != 0 {
        return fail("refused-early", format!("task set {:b} was refused although fewer than {} tasks were waiting", bad.load(SeqCst), q));
    }
    let list = |m: usize| (0..kinds.len()).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>();
    Ok((list(ok.load(SeqCst)), list(no.load(SeqCst))))
}

pub(super) fn opts(r: &Run, quick: u32, thorough: u32, mask: u32) -> Opts {
    Opts { bound: if r.thorough { thorough } else { quick }, mask, steps: 60_000, ..Default::default() }
}

fn run_set(size: usize, q: usize, kinds: Vec<Kind>, subs: usize, quiet: bool, gate_after: bool) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, q, quiet));
        let (mut ok, no) = submit_all(&pool, &t, &kinds, subs, q)?;
        if gate_after {
            // let everything settle behind the gate, then open it
            wait_until(Some(5), "main: settle", || false);
            t.open_gate();
        }
        for (i, k) in kinds.iter().enumerate() {
            if let Kind::Submit(j) = k {
                if ok.contains(&i) {
                    ok.push(*j);
                }
            }
        }
        verify(&t, MAXTASK, &ok, &no, size)?;
        if pool.size() != size {
            return fail("size", "size() differs from the configured size");
        }
        Ok(hash_str(&format!("{:?} {:?} {}", ok, no, t.max_running.load(SeqCst))))
    }
}

/// One execution (the default schedule) for each of many sizes.
pub(super) fn sizes(r: &mut Run, name: &str, items: Vec<Box<dyn Fn() -> Res>>) {
    let o = Opts { steps: 20_000_000, secs: 200, hang_secs: 60, ..Default::default() };
    r.enumerate(name, items.len() as u64, 1, o, |lo, hi| {
        for it in lo..hi {
            at_item(it);
            items[it as usize]()?;
        }
        Ok(0)
    });
}
/// Pool sizes and queue lengths for these.
fn grid(r: &Run) -> (Vec<usize>, Vec<usize>) {
    if r.thorough {
        ((1..=20).collect(), (1..=24).chain([31, 32, 33, 48]).collect())
    } else {
        (vec![1, 2, 3, 4, 5, 7, 8, 9, 16], vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33])
    }
}

/// `n` tasks, `burst` at a time (each burst is waited for), of which every `panics`-th panics (0: none),
/// through `clones` handles in turn; afterwards the pool still runs `size` tasks at once, and it is gone once dropped.
fn long(size: usize, q: usize, n: usize, burst: usize, panics: usize, clones: usize) -> Box<dyn Fn() -> Res> {
    Box::new(move || {
        let pool = mk(size, q, true);
        let hs: Vec<ThreadPool> = (0..clones).map(|_| pool.clone()).collect();
        let ran: Arc<Vec<AtomicUsize>> = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect());
        let done = Arc::new(AtomicUsize::new(0));
        let now = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
        let what = |e: String| format!("{} workers, queue {}, {} tasks in bursts of {}, every {}th panics, {} handles: {}", size, q, n, burst, panics, clones + 1, e);
        let mut at = 0;
        while at < n {
            let to = (at + burst).min(n);
            for i in at..to {
                let (ran, done, now) = (ran.clone(), done.clone(), now.clone());
                let h = if clones > 0 && i % (clones + 1) > 0 { &hs[i % (clones + 1) - 1] } else { &pool };
                let ok = glue::execute(h, Box::new(move || {
                    ran[i].fetch_add(1, SeqCst);
                    let k = now.0.fetch_add(1, SeqCst) + 1;
                    now.1.fetch_max(k, SeqCst);
                    app_point();
                    now.0.fetch_sub(1, SeqCst);
                    done.fetch_add(1, SeqCst);
                    notify_app();
                    if panics > 0 && i % panics == panics - 1 {
                        panic!("task panics");
                    }
                }));
                if !ok {
                    return fail("refused-early", what(format!("task {} is refused with queue space left", i)));
                }
            }
            let d = done.clone();
            if !wait_until(Some(20_000), "main: burst", move || d.load(SeqCst) >= to) {
                rt().sched_on = false;
                return fail("lost-task", what(format!("{} of the first {} tasks ran; {}", done.load(SeqCst), to, describe_threads())));
            }
            settle(15);
            for i in at..to {
                if ran[i].load(SeqCst) != 1 {
                    return fail("not-once", what(format!("task {} ran {} times", i, ran[i].load(SeqCst))));
                }
            }
            at = to;
        }
        if now.1.load(SeqCst) > size {
            return fail("too-many", what(format!("{} tasks ran at once", now.1.load(SeqCst))));
        }
        let t = Track::new();
        for i in 0..size {
            if !glue::execute(&pool, task(&t, i, Kind::Meet(size), None)) {
                return fail("refused-early", what("refused by an idle pool".to_string()));
            }
        }
        let ids: Vec<usize> = (0..size).collect();
        verify(&t, size, &ids, &[], size).map_err(|v| Verdict { key: v.key, msg: what(v.msg) })?;
        drop(hs);
        settle(20);
        if !glue::execute(&pool, task(&t, size, Kind::Plain, None)) || !all_done(&t, &[size]) {
            return fail("lost-task", what("the last handle is not served".to_string()));
        }
        drop(pool);
        gone(0).map_err(|v| Verdict { key: v.key, msg: what(v.msg) })?;
        Ok(1)
    })
}

/// One pool after the other.
fn pools(size: usize, n: usize) -> Box<dyn Fn() -> Res> {
    Box::new(move || {
        for k in 0..n {
            let t = Track::new();
            let pool = mk(size, 8, true);
            for i in 0..3 {
                if !glue::execute(&pool, task(&t, i, if k % 3 == i { Kind::Panic } else { Kind::Plain }, None)) {
                    return fail("refused-early", format!("pool number {}: refused by an idle pool", k));
                }
            }
            verify(&t, 3, &[0, 1, 2], &[], size).map_err(|v| Verdict { key: v.key, msg: format!("pool number {}: {}", k, v.msg) })?;
            drop(pool);
            gone(0).map_err(|v| Verdict { key: v.key, msg: format!("pool number {}: {}", k, v.msg) })?;
        }
        Ok(1)
    })
}

pub fn p01(r: &mut Run) {
    use Kind::*;
    common_assumptions(r);
    r.explore("one-worker-2", opts(r, 2, 3, K_ALL), run_set(1, 4, vec![Plain; 2], 1, true, false));
    r.explore("one-worker-2-two-submitters", opts(r, 3, 4, K_REDUCED), run_set(1, 4, vec![Plain; 2], 2, true, false));
    r.explore("one-worker-3-two-submitters", opts(r, 2, 3, K_REDUCED), run_set(1, 4, vec![Plain; 3], 2, true, false));
    r.explore("two-workers-3", opts(r, 2, 3, K_REDUCED), run_set(2, 4, vec![Plain; 3], 1, true, false));
    r.explore("two-workers-3-all", opts(r, 1, 2, K_ALL), run_set(2, 4, vec![Plain; 3], 1, true, false));
    r.explore("two-workers-5", opts(r, 2, 2, K_REDUCED), run_set(2, 8, vec![Plain; 5], 1, true, false));
    r.explore("two-workers-4-two-submitters", opts(r, 2, 2, K_REDUCED), run_set(2, 8, vec![Plain; 4], 2, true, false));
    r.explore("three-workers-4", opts(r, 2, 3, K_REDUCED), run_set(3, 8, vec![Plain; 4], 1, true, false));
    r.explore("fresh-pool", opts(r, 1, 2, K_ALL), run_set(2, 4, vec![Plain; 3], 1, false, false));
    r.explore("task-submits-task", opts(r, 2, 3, K_REDUCED), run_set(1, 4, vec![Submit(8), Plain], 1, true, false));
    r.explore("task-submits-task-2w", opts(r, 2, 2, K_REDUCED), run_set(2, 4, vec![Submit(8), Submit(9), Plain], 1, true, false));
    r.explore("queue-full-1", opts(r, 2, 3, K_REDUCED), run_set(1, 1, vec![Gate, Plain, Plain, Plain], 1, true, true));
    r.explore("queue-full-2", opts(r, 2, 2, K_REDUCED), run_set(1, 2, vec![Gate, Plain, Plain, Plain], 1, true, true));
    r.explore("queue-full-2w", opts(r, 2, 2, K_REDUCED), run_set(2, 1, vec![Gate, Gate, Plain, Plain], 2, true, true));
    r.explore("queue-full-plain", opts(r, 2, 3, K_REDUCED), run_set(1, 1, vec![Plain; 4], 1, true, false));
    r.explore("queue-full-plain-all", opts(r, 1, 2, K_ALL), run_set(1, 1, vec![Plain; 4], 1, true, false));
    r.explore("queue-full-plain-2w-all", opts(r, 1, 2, K_ALL), run_set(2, 1, vec![Plain; 5], 1, true, false));
    r.explore("queue-full-two-submitters-all", opts(r, 1, 2, K_ALL), run_set(1, 1, vec![Plain; 4], 2, true, false));
    r.explore("queue-full-1-all", opts(r, 1, 2, K_ALL), run_set(1, 1, vec![Gate, Plain, Plain, Plain], 1, true, true));
    r.explore("after-panic", opts(r, 2, 2, K_REDUCED), run_set(1, 4, vec![Plain, Panic, Plain], 1, true, false));
    r.explore("idle-then-burst", opts(r, 2, 2, K_REDUCED), waves(2, 2, vec![vec![Plain; 2], vec![Plain; 3], vec![Plain; 2]]));
    r.explore("queue-exact", opts(r, 2, 2, K_REDUCED), exact_queue(2, 2));
    r.explore("queue-exact-1", opts(r, 2, 3, K_REDUCED), exact_queue(1, 3));
    r.explore("queue-exact-3w", opts(r, 1, 2, K_REDUCED), exact_queue(3, 5));
    r.explore("handles-come-and-go", opts(r, 2, 2, K_REDUCED), handles(1, 2, 1));
    r.explore("handles-come-and-go-all", opts(r, 1, 2, K_ALL), handles(2, 2, 1));
    r.explore("handles-come-and-go-3", opts(r, 1, 2, K_REDUCED), handles(1, 3, 2));
    let (ws, qs) = grid(r);
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for &w in &ws {
        for &q in &qs {
            l.push(Box::new(exact_queue(w, q)));
            let b = q.min(30);
            l.push(Box::new(waves(w, q, vec![vec![Plain; b]; 4])));
            l.push(Box::new(waves(w, q, vec![vec![Plain; 1]; 60])));
            for (n, subs) in [(q.min(60), 1), (60, 1), (q.min(60), 2), (60, 3), (60, 6)] {
                l.push(Box::new(run_set(w, q, vec![Plain; n], subs, true, false)));
            }
            for subs in [1, 2, 5] {
                let kinds: Vec<Kind> = (0..(w + q + 5).min(60)).map(|i| if i < w { Gate } else { [Plain, Panic, Plain][i % 3] }).collect();
                l.push(Box::new(run_set(w, q, kinds, subs, true, true)));
            }
        }
        for n in [1, 2, 5, 20, 50] {
            l.push(Box::new(run_set(w, 128, (0..n).map(|i| if i % 2 == 0 { Submit(64 + i) } else { Plain }).collect(), 1 + n % 3, true, false)));
        }
        for h in [2, 3, 5, 8] {
            l.push(Box::new(handles(w, h, 6)));
        }
    }
    sizes(r, "sizes", l);
    // long histories of one pool
    let m = if r.thorough { 30 } else { 4 };
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for w in [1, 2, 3, 8] {
        for (n, burst) in [(700, 1), (1400, 7), (2200, 100)] {
            l.push(long(w, burst.max(2), n * m, burst, 0, 0));
            l.push(long(w, burst.max(2), n * m / 2, burst, 0, 5));
        }
        l.push(long(w, 40, 600 * m, 40, 0, 300));
    }
    sizes(r, "long-histories", l);
}

/// `n` handles are cloned, used and dropped in their own threads while one more lives: the pool goes on
/// serving through every one of them.
fn handles(size: usize, n: usize, each: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(size, 64, true);
        let mut js = vec![];
        for h in 0..n {
            let p = pool.clone();
            let t = t.clone();
            js.push(spawn_harness(move || {
                for e in 0..each {
                    let q = p.clone();
                    let i = h * each + e;
                    assert!(glue::execute(&q, task(&t, i, Kind::Plain, None)), "refused through a clone");
                }
                drop(p);
            }));
        }
        for j in js {
            let _ = j.join();
        }
        let mut ids: Vec<usize> = (0..n * each).collect();
        for k in 0..2 {
            let i = n * each + k;
            if !glue::execute(&pool, task(&t, i, Kind::Plain, None)) {
                return fail("refused-early", "refused although a handle lives and the queue has room");
            }
            ids.push(i);
            wait_until(Some(1), "main: settle", || false);
        }
        verify(&t, MAXTASK, &ids, &[], size)?;
        no_app_panics()?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}
pub(super) fn no_app_panics() -> Result<(), Verdict> {
    let p = panics();
    if p.is_empty() {
        Ok(())
    } else {
        fail("panic", format!("{:?}", p))
    }
}

/// Several bursts, each after the pool has gone idle: nothing is refused while the queue has room.
fn waves(size: usize, q: usize, ws: Vec<Vec<Kind>>) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, q, true));
        let mut ids = vec![];
        let mut i = 0;
        for w in &ws {
            for &k in w {
                if !glue::execute(&pool, task(&t, i, k, None)) {
                    return fail("refused-early", format!("task {} of a burst of {} refused by an idle pool of {} workers and queue {}", i, w.len(), size, q));
                }
                ids.push(i);
                i += 1;
            }
            if !all_done(&t, &ids) {
                rt().sched_on = false;
                return fail("lost-task", format!("{} {}", counts(&t, i), describe_threads()));
            }
            wait_until(Some(1), "main: idle", || false);
        }
        verify(&t, MAXTASK, &ids, &[], size)?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

/// All workers busy: exactly q further tasks are accepted, the next is refused, and after the gate
/// opens every accepted one runs.
fn exact_queue(size: usize, q: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, q, true));
        let mut ids = vec![];
        for i in 0..size {
            if !glue::execute(&pool, task(&t, i, Kind::Gate, None)) {
                return fail("refused-early", "refused by an idle pool");
            }
            ids.push(i);
        }
        let t2 = t.clone();
        if !wait_until(Some(5000), "main: busy", move || t2.total_started() >= size) {
            return fail("not-parallel", format!("{} tasks submitted to {} idle workers did not all start {}", size, size, describe_threads()));
        }
        wait_until(Some(1), "main: settle", || false);
        for i in size..size + q {
            if !glue::execute(&pool, task(&t, i, Kind::Plain, None)) {
                return fail("refused-early", format!("task refused with {} of {} queue slots taken", i - size, q));
            }
            ids.push(i);
        }
        let x = size + q;
        if glue::execute(&pool, task(&t, x, Kind::Plain, None)) {
            return fail("queue-over", "a task was accepted beyond the configured queue length with all workers blocked");
        }
        t.open_gate();
        verify(&t, MAXTASK, &ids, &[x], size)?;
        Ok(1)
    }
}

pub fn p02(r: &mut Run) {
    use Kind::*;
    common_assumptions(r);
    // at most N (verify checks the gauge), and N mutually dependent tasks complete
    r.explore("meet-2", opts(r, 2, 3, K_REDUCED), run_set(2, 4, vec![Meet(2), Meet(2)], 1, true, false));
    r.explore("meet-2-all-points", opts(r, 1, 2, K_ALL), run_set(2, 4, vec![Meet(2), Meet(2)], 1, true, false));
    r.explore("meet-2-two-submitters", opts(r, 2, 2, K_REDUCED), run_set(2, 4, vec![Meet(2), Meet(2)], 2, true, false));
    r.explore("meet-3", opts(r, 2, 2, K_REDUCED), run_set(3, 4, vec![Meet(3), Meet(3), Meet(3)], 1, true, false));
    r.explore("fresh-meet-2", opts(r, 1, 2, K_ALL), run_set(2, 4, vec![Meet(2), Meet(2)], 1, false, false));
    r.explore("fresh-meet-3", opts(r, 1, 2, K_REDUCED), run_set(3, 4, vec![Meet(3), Meet(3), Meet(3)], 1, false, false));
    r.explore("meet-after-work", opts(r, 2, 2, K_REDUCED), run_set(2, 6, vec![Plain, Plain, Meet(2), Meet(2)], 1, true, false));
    r.explore("meet-after-work-1", opts(r, 2, 2, K_REDUCED), run_set(2, 6, vec![Plain, Meet(2), Meet(2)], 1, true, false));
    r.explore("one-blocked-others-flow", opts(r, 2, 2, K_REDUCED), one_blocked(2, 3));
    r.explore("one-blocked-others-flow-3", opts(r, 1, 2, K_REDUCED), one_blocked(3, 4));
    r.explore("gauge-2", opts(r, 2, 3, K_REDUCED), run_set(2, 8, vec![Plain; 5], 2, true, false));
    r.explore("gauge-1", opts(r, 2, 3, K_REDUCED), run_set(1, 8, vec![Plain; 3], 2, true, false));
    r.explore("gauge-queue-full", opts(r, 2, 2, K_REDUCED), run_set(2, 1, vec![Gate, Gate, Plain, Plain, Plain], 1, true, true));
    r.explore("gauge-queue-full-two-submitters", opts(r, 1, 2, K_REDUCED), run_set(2, 1, vec![Gate, Gate, Plain, Plain, Plain], 2, true, true));
    r.explore("gauge-queue-full-1", opts(r, 2, 2, K_REDUCED), run_set(1, 1, vec![Gate, Plain, Plain, Plain], 1, true, true));
    r.explore("gauge-queue-full-plain-all", opts(r, 1, 2, K_ALL), run_set(1, 1, vec![Plain; 4], 2, true, false));
    r.explore("meet-waves", opts(r, 1, 2, K_REDUCED), meet_waves(2, 3));
    r.explore("gauge-after-panic", opts(r, 2, 2, K_REDUCED), run_set(1, 8, vec![Panic, Plain, Plain], 1, true, false));
    r.explore("gauge-after-panic-2", opts(r, 1, 2, K_REDUCED), run_set(2, 8, vec![Panic, Plain, Plain, Plain], 1, true, false));
    r.explore("submit-inside-meet", opts(r, 2, 2, K_REDUCED), inside_meet());
    r.explore("meet-4", opts(r, 1, 2, K_REDUCED), run_set(4, 8, vec![Meet(4); 4], 1, true, false));
    let (ws, _) = grid(r);
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for &w in &ws {
        for subs in [1, 2, 3] {
            for rounds in [1, 2, 3] {
                l.push(Box::new(run_set(w, 64, vec![Meet(w); w * rounds], subs, true, false)));
                l.push(Box::new(run_set(w, 64, [vec![Plain; rounds * 2], vec![Panic; rounds - 1], vec![Meet(w); w]].concat(), subs, true, false)));
            }
            l.push(Box::new(run_set(w, 64, vec![Plain; 60], subs, true, false)));
        }
        for n in 1..=6 {
            l.push(Box::new(meet_waves(w, n)));
            l.push(Box::new(one_blocked(w, w - 1 + n * 5)));
        }
        l.push(Box::new(run_set(w, 64, vec![Meet(w); w], 1, false, false)));
        if w > 1 {
            l.push(Box::new(inside_meet_chain(w)));
        }
    }
    sizes(r, "sizes", l);
    let m = if r.thorough { 30 } else { 4 };
    sizes(r, "long-histories", [1, 2, 4, 8].iter().flat_map(|&w| vec![long(w, 8, 400 * m, 8, 0, 0), long(w, 1, 300 * m, 1, 50, 0)]).collect());
}

/// Task 0 submits task 1 and waits for it, task 1 does the same with task 2, ..., on as many workers.
fn inside_meet_chain(size: usize) -> impl Fn() -> Res {
    fn link(t: Arc<Track>, p: Arc<ThreadPool>, i: usize, last: usize) -> Box<dyn FnOnce() + Send + 'static> {
        Box::new(move || {
            t.enter(i);
            if i < last {
                let _ = glue::execute(&p, link(t.clone(), p.clone(), i + 1, last));
                let t2 = t.clone();
                wait_until(Some(60_000), "task: partner", move || t2.done[i + 1].load(SeqCst) > 0);
            }
            t.leave(i);
        })
    }
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 4, true));
        if !glue::execute(&pool, link(t.clone(), pool.clone(), 0, size - 1)) {
            return fail("refused-early", "refused by an idle pool");
        }
        let ids: Vec<usize> = (0..size).collect();
        verify(&t, MAXTASK, &ids, &[], size)?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

/// Task 0 submits a partner from inside and waits for it: the second worker must take it.
fn inside_meet() -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(2, 4, true));
        let (t1, p1) = (t.clone(), pool.clone());
        let ok = glue::execute(&pool, Box::new(move || {
            t1.enter(0);
            let _ = glue::execute(&p1, task(&t1, 1, Kind::Plain, None));
            let t2 = t1.clone();
            wait_until(Some(60_000), "task: partner", move || t2.done[1].load(SeqCst) > 0);
            t1.leave(0);
        }));
        if !ok {
            return fail("refused-early", "refused by an idle pool");
        }
        verify(&t, MAXTASK, &[0, 1], &[], 2)?;
        Ok(1)
    }
}

fn one_blocked(size: usize, n: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 64, true));
        let mut ids = vec![];
        for i in 0..=n {
            let k = if i < size - 1 { Kind::Gate } else { Kind::Plain };
            if !glue::execute(&pool, task(&t, i, k, None)) {
                return fail("refused-early", "refused with queue space left");
            }
            if i >= size - 1 {
                ids.push(i);
            }
        }
        if !all_done(&t, &ids) {
            rt().sched_on = false;
            return fail("idle-worker", format!("tasks wait although a worker is free: {} {}", counts(&t, n + 1), describe_threads()));
        }
        t.open_gate();
        let all: Vec<usize> = (0..=n).collect();
        verify(&t, MAXTASK, &all, &[], size)?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

/// waves of `size` mutually dependent tasks, back to back
fn meet_waves(size: usize, n: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 128, true));
        let mut ids = vec![];
        for w in 0..n {
            for k in 0..size {
                let i = w * size + k;
                if !glue::execute(&pool, task(&t, i, Kind::Meet(size), None)) {
                    return fail("refused-early", "refused with queue space left");
                }
                ids.push(i);
            }
        }
        verify(&t, MAXTASK, &ids, &[], size)?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

pub fn p03(r: &mut Run) {
    use Kind::*;
    common_assumptions(r);
    r.explore("panic-then-plain", opts(r, 2, 3, K_REDUCED), after_panic(1, vec![Panic, Plain]));
    r.explore("panic-then-plain-all-points", opts(r, 1, 2, K_ALL), after_panic(1, vec![Panic, Plain]));
    r.explore("plain-panic-plain", opts(r, 2, 2, K_REDUCED), after_panic(1, vec![Plain, Panic, Plain]));
    r.explore("two-panics", opts(r, 2, 2, K_REDUCED), after_panic(1, vec![Panic, Panic, Plain]));
    r.explore("two-workers-panic", opts(r, 2, 2, K_REDUCED), after_panic(2, vec![Panic, Plain, Plain]));
    r.explore("two-workers-two-panics", opts(r, 2, 2, K_REDUCED), after_panic(2, vec![Panic, Panic, Plain]));
    r.explore("two-workers-panic-last", opts(r, 1, 2, K_REDUCED), after_panic(2, vec![Plain, Plain, Panic]));
    r.explore("two-workers-all-panic", opts(r, 1, 2, K_REDUCED), after_panic(2, vec![Panic, Panic, Panic]));
    r.explore("three-workers-panics", opts(r, 1, 2, K_REDUCED), after_panic(3, vec![Panic, Plain, Panic, Panic]));
    r.explore("second-worker-panics", opts(r, 1, 2, K_REDUCED), second_panics());
    r.explore("repeated-panics", opts(r, 1, 2, K_REDUCED), repeated(2, 4));
    // ways to panic
    for how in [1u8, 3, 5] {
        r.explore(&format!("payload-{}", how), opts(r, 1, 2, K_REDUCED), after_panic(1, vec![With(how), Plain]));
    }
    r.explore("payloads", opts(r, 1, 2, K_REDUCED), after_panic(2, vec![With(1), With(3), With(0)]));
    r.explore("unwinding-submits", opts(r, 1, 2, K_REDUCED), unwinding(1, 1));
    r.explore("unwinding-submits-2", opts(r, 1, 2, K_REDUCED), unwinding(2, 2));
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for w in 1..=3 {
        for i in 0..nstr(9, if r.thorough { 4 } else { 3 }) {
            l.push(Box::new(after_panic(w, nth(9, i).into_iter().map(|k| if k == 8 { Plain } else { With(k as u8) }).collect())));
        }
        for n in 1..20 {
            l.push(Box::new(unwinding(w, n)));
        }
    }
    sizes(r, "payloads-sizes", l);
    let (ws, _) = grid(r);
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for &w in &ws {
        for n in (1..=20).chain([31, 32, 33, 40]) {
            l.push(Box::new(after_panic(w, vec![Panic; n])));
            l.push(Box::new(after_panic(w, (0..n).map(|i| if i % 3 == 1 { Plain } else { Panic }).collect())));
            l.push(Box::new(repeated(w, n)));
        }
    }
    sizes(r, "sizes", l);
    // long histories of one pool: hundreds of replacements
    let m = if r.thorough { 30 } else { 4 };
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for w in [1, 2, 3, 8] {
        for (burst, panics) in [(1, 1), (1, 2), (8, 1), (20, 3), (100, 1)] {
            l.push(long(w, burst.max(2), 300 * m, burst, panics, 0));
        }
        l.push(long(w, 8, 300 * m, 8, 1, 4));
    }
    sizes(r, "long-histories", l);
}

/// after the panics the pool must still run `size` tasks simultaneously
fn after_panic(size: usize, kinds: Vec<Kind>) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 64, true));
        let (ok, no) = submit_all(&pool, &t, &kinds, 1, 64)?;
        if !no.is_empty() {
            return fail("refused-early", "a task was refused with queue space left");
        }
        let mut ids = ok.clone();
        for j in 0..size {
            let i = kinds.len() + j;
            if !glue::execute(&pool, task(&t, i, Kind::Meet(size), None)) {
                return fail("refused-early", "a task was refused after a panic");
            }
            ids.push(i);
        }
        verify(&t, MAXTASK, &ids, &no, size)?;
        // later, from quiescence: full capacity again
        let base = kinds.len() + size;
        let t3 = Track::new();
        let mut ids2 = vec![];
        for j in 0..size {
            if !glue::execute(&pool, task(&t3, base + j, Kind::Meet(size), None)) {
                return fail("refused-late", "a task was refused after a panic");
            }
            ids2.push(base + j);
        }
        verify(&t3, MAXTASK, &ids2, &[], size)?;
        if t3.max_running.load(SeqCst) != size {
            return fail("capacity-lost", "pool no longer runs as many tasks as its size");
        }
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

/// n tasks panic and submit another each while they unwind
fn unwinding(size: usize, n: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 64, true));
        let mut ids = vec![];
        for i in 0..n {
            if !glue::execute(&pool, task(&t, i, Kind::Unwind(20 + i), Some(pool.clone()))) {
                return fail("refused-early", "refused with queue space left");
            }
            ids.push(i);
            ids.push(20 + i);
        }
        for j in 0..size {
            if !glue::execute(&pool, task(&t, 40 + j, Kind::Meet(size), None)) {
                return fail("refused-early", "refused with queue space left");
            }
            ids.push(40 + j);
        }
        verify(&t, MAXTASK, &ids, &[], size)?;
        Ok(1)
    }
}

/// one worker is blocked while the other one's task panics repeatedly
fn second_panics() -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(2, 8, true));
        let kinds = [Kind::Gate, Kind::Panic, Kind::Panic, Kind::Plain];
        for (i, &k) in kinds.iter().enumerate() {
            if !glue::execute(&pool, task(&t, i, k, None)) {
                return fail("refused-early", "refused with queue space left");
            }
        }
        if !all_done(&t, &[1, 2, 3]) {
            rt().sched_on = false;
            return fail("capacity-lost", format!("tasks behind a panic do not run: {} {}", counts(&t, 4), describe_threads()));
        }
        t.open_gate();
        verify(&t, MAXTASK, &[0, 1, 2, 3], &[], 2)?;
        Ok(1)
    }
}

fn repeated(size: usize, rounds: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = Arc::new(mk(size, 64, true));
        let base = live_threads().max(size + 1);
        for i in 0..rounds {
            if !glue::execute(&pool, task(&t, i, Kind::Panic, None)) {
                return fail("refused-early", "refused by an idle pool");
            }
            if !all_done(&t, &[i]) {
                return fail("lost-task", format!("round {} {}", i, describe_threads()));
            }
        }
        let ids: Vec<usize> = (rounds..rounds + size).collect();
        for &i in &ids {
            if !glue::execute(&pool, task(&t, i, Kind::Meet(size), None)) {
                return fail("refused-early", "refused with queue space left");
            }
        }
        verify(&t, MAXTASK, &ids, &[], size)?;
        gone(base)?;
        if live_threads() > base {
            return fail("thread-count", format!("{} pool threads after {} panics, {} before", live_threads(), rounds, base));
        }
        Ok(1)
    }
}

pub fn p04(r: &mut Run) {
    use Kind::*;
    common_assumptions(r);
    r.explore("drop-idle", opts(r, 2, 3, K_ALL), drop_after(1, 4, vec![]));
    r.explore("drop-fresh", opts(r, 1, 2, K_ALL), drop_fresh(2));
    r.explore("drop-1-task", opts(r, 2, 3, K_REDUCED), drop_after(1, 4, vec![Plain]));
    r.explore("drop-2-tasks-all-points", opts(r, 1, 2, K_ALL), drop_after(1, 4, vec![Plain, Plain]));
    r.explore("drop-3-tasks", opts(r, 2, 2, K_REDUCED), drop_after(1, 4, vec![Plain; 3]));
    r.explore("drop-2w-4-tasks", opts(r, 2, 2, K_REDUCED), drop_after(2, 4, vec![Plain; 4]));
    r.explore("drop-panic", opts(r, 2, 2, K_REDUCED), drop_after(1, 4, vec![Panic, Plain]));
    r.explore("drop-panic-last", opts(r, 2, 2, K_REDUCED), drop_after(1, 4, vec![Plain, Panic]));
    r.explore("drop-2w-panic", opts(r, 1, 2, K_REDUCED), drop_after(2, 4, vec![Panic, Plain, Panic]));
    r.explore("drop-3w", opts(r, 1, 2, K_REDUCED), drop_after(3, 4, vec![Plain; 4]));
    r.explore("drop-gated", opts(r, 2, 2, K_REDUCED), drop_gated(2));
    r.explore("clone-keeps-alive", opts(r, 2, 2, K_REDUCED), clone_alive());
    r.explore("racing-drops", opts(r, 2, 2, K_REDUCED), racing_drops(1));
    r.explore("racing-drops-2", opts(r, 1, 2, K_ALL), racing_drops(2));
    r.explore("task-owns-last-handle", opts(r, 2, 2, K_REDUCED), task_owns());
    r.explore("two-pools", opts(r, 1, 2, K_REDUCED), two_pools());
    r.explore("handles-then-drop", opts(r, 1, 2, K_REDUCED), handles_drop(1, 2, 1));
    let (ws, _) = grid(r);
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for &w in &ws {
        for n in [0, 1, 2, 3, 5, 8, 16, 40, 60] {
            l.push(Box::new(drop_after(w, 64, vec![Plain; n])));
            l.push(Box::new(drop_after(w, 64, (0..n).map(|i| if i % 4 == 2 { Panic } else { Plain }).collect())));
            l.push(Box::new(drop_after(w, 64, vec![Panic; n])));
        }
        l.push(Box::new(drop_gated(w)));
        l.push(Box::new(drop_fresh(w)));
        l.push(Box::new(racing_drops(w)));
        for h in [1, 2, 3, 6, 10] {
            l.push(Box::new(handles_drop(w, h, 3)));
        }
    }
    sizes(r, "sizes", l);
    let m = if r.thorough { 30 } else { 4 };
    let mut l: Vec<Box<dyn Fn() -> Res>> = vec![];
    for w in [1, 2, 4] {
        l.push(pools(w, 120 * m));
        l.push(long(w, 20, 600, 20, 0, 300));
        l.push(long(w, 20, 600, 20, 7, 600 * m));
    }
    sizes(r, "long-histories", l);
}

/// `n` handles in threads of their own, and the first one, are used and dropped in any order.
fn handles_drop(size: usize, n: usize, each: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(size, 64, true);
        let mut js = vec![];
        for h in 0..n {
            let p = pool.clone();
            let t = t.clone();
            js.push(spawn_harness(move || {
                for e in 0..each {
                    assert!(glue::execute(&p, task(&t, h * each + e, Kind::Plain, None)), "refused through a clone");
                }
                drop(p);
            }));
        }
        drop(pool);
        for j in js {
            let _ = j.join();
        }
        let ids: Vec<usize> = (0..n * each).collect();
        verify(&t, MAXTASK, &ids, &[], size)?;
        no_app_panics()?;
        gone(0)?;
        Ok(1)
    }
}

pub(super) fn gone(n: usize) -> Result<(), Verdict> {
    rt().sched_on = false;
    for _ in 0..2000 {
        if live_threads() <= n {
            return Ok(());
        }
        settle(10);
    }
    fail("threads-left", format!("{} pool threads still exist after the last handle was dropped: {}", live_threads(), describe_threads()))
}

fn drop_after(size: usize, q: usize, kinds: Vec<Kind>) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(size, q, true);
        for (i, &k) in kinds.iter().enumerate() {
            if !glue::execute(&pool, task(&t, i, k, None)) {
                return fail("refused-early", "refused with queue space left");
            }
        }
        drop(pool);
        let ids: Vec<usize> = (0..kinds.len()).collect();
        verify(&t, MAXTASK, &ids, &[], size)?;
        gone(0)?;
        Ok(t.max_running.load(SeqCst) as u64)
    }
}

fn drop_fresh(size: usize) -> impl Fn() -> Res {
    move || {
        let pool = mk(size, 4, false);
        drop(pool);
        settle(5);
        gone(0)?;
        Ok(1)
    }
}

fn drop_gated(size: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(size, 64, true);
        for i in 0..size + 2 {
            let k = if i < size { Kind::Gate } else { Kind::Plain };
            if !glue::execute(&pool, task(&t, i, k, None)) {
                return fail("refused-early", "refused with queue space left");
            }
        }
        drop(pool);
        wait_until(Some(5), "main: settle", || false);
        t.open_gate();
        let ids: Vec<usize> = (0..size + 2).collect();
        verify(&t, MAXTASK, &ids, &[], size)?;
        gone(0)?;
        Ok(1)
    }
}

fn clone_alive() -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(1, 4, true);
        let p2 = pool.clone();
        if !glue::execute(&pool, task(&t, 0, Kind::Plain, None)) {
            return fail("refused-early", "refused by an idle pool");
        }
        drop(pool);
        wait_until(Some(5), "main: settle", || false);
        for i in 1..3 {
            if !glue::execute(&p2, task(&t, i, Kind::Plain, None)) {
                return fail("clone-refused", "a clone of the handle no longer accepts tasks");
            }
        }
        if !all_done(&t, &[0, 1, 2]) {
            rt().sched_on = false;
            return fail("clone-dead", format!("tasks submitted through a clone do not run: {} {}", counts(&t, 3), describe_threads()));
        }
        drop(p2);
        verify(&t, MAXTASK, &[0, 1, 2], &[], 1)?;
        gone(0)?;
        Ok(1)
    }
}

fn racing_drops(size: usize) -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(size, 4, true);
        let p2 = pool.clone();
        let t2 = t.clone();
        let j = spawn_harness(move || {
            assert!(glue::execute(&p2, task(&t2, 1, Kind::Plain, None)));
            drop(p2);
        });
        if !glue::execute(&pool, task(&t, 0, Kind::Plain, None)) {
            return fail("refused-early", "refused with queue space left");
        }
        drop(pool);
        let _ = j.join();
        verify(&t, MAXTASK, &[0, 1], &[], size)?;
        gone(0)?;
        Ok(1)
    }
}

/// the last handle lives in a running task, which submits another task and then drops it
fn task_owns() -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let pool = mk(1, 4, true);
        let p2 = pool.clone();
        let t2 = t.clone();
        if !glue::execute(&pool, Box::new(move || {
            t2.enter(0);
            let t3 = t2.clone();
            wait_until(Some(60_000), "task: gate", move || t3.gate.load(SeqCst) != 0);
            assert!(glue::execute(&p2, task(&t2, 1, Kind::Plain, None)));
            t2.leave(0);
            drop(p2);
        })) {
            return fail("refused-early", "refused by an idle pool");
        }
        drop(pool);
        t.open_gate();
        verify(&t, MAXTASK, &[0, 1], &[], 1)?;
        gone(0)?;
        Ok(1)
    }
}

/// dropping one pool leaves another one untouched
fn two_pools() -> impl Fn() -> Res {
    move || {
        let t = Track::new();
        let a = mk(1, 4, true);
        let base = live_threads().max(2);
        let b = mk(1, 4, true);
        if !glue::execute(&a, task(&t, 0, Kind::Plain, None)) || !glue::execute(&b, task(&t, 1, Kind::Plain, None)) {
            return fail("refused-early", "refused by an idle pool");
        }
        drop(a);
        wait_until(Some(5), "main: settle", || false);
        if !glue::execute(&b, task(&t, 2, Kind::Plain, None)) {
            return fail("refused-early", "refused by an idle pool");
        }
        verify(&t, MAXTASK, &[0, 1, 2], &[], 2)?;
        gone(base)?;
        if live_threads() > base {
            return fail("other-pool", format!("{} threads, the remaining pool had {}", live_threads(), base));
        }
        drop(b);
        gone(0)?;
        Ok(1)
    }
}

pub(super) fn common_assumptions(r: &mut Run) {
    r.assume("sequentially consistent interleavings (weak-memory reorderings are not explored)");
    r.assume("scheduling points: every atomic operation of starry and crossbeam (scenarios named all-points) or every atomic write plus every futex/thread operation (the others); all executions with at most the stated number of deviations from the default schedule");
    r.assume("pool sizes 1-3, up to 9 tasks, up to 2 submitting threads under every schedule; larger pools, queues and task numbers under the default schedule");
}

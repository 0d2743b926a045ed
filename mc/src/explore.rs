//! Exhaustive exploration: fork per execution, prefix work list in shared memory, N worker processes.
use crate::rt::*;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAXDEV: usize = 10;

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Work {
    n: u32,
    devs: [(u32, u8, u32); MAXDEV],
}

const STACK: usize = 3_000_000;
const OUTSET: usize = 1 << 16;
const MAXV: usize = 64;

#[repr(C)]
#[derive(Clone, Copy)]
struct Vio {
    outcome: u32,
    ndevs: u32,
    item: u64,
    devs: [(u32, u8, u32); MAXDEV],
    keylen: u32,
    msglen: u32,
    key: [u8; 512],
    msg: [u8; 4096],
}

#[repr(C)]
struct Shared {
    lock: AtomicU32,
    top: AtomicU64,
    busy: AtomicI64,
    stop: AtomicU32,
    execs: AtomicU64,
    nodes: AtomicU64,
    steps: AtomicU64,
    maxdec: AtomicU64,
    next_item: AtomicU64,
    items: AtomicU64,
    skipped: AtomicU64,
    dropped: AtomicU64,
    extra: [AtomicU64; 8],
    nvio: AtomicU32,
    vio: [Vio; MAXV],
    outset: [AtomicU64; OUTSET],
    nout: AtomicU64,
    stack: [Work; STACK],
}

impl Shared {
    fn lock(&self) {
        let mut i = 0;
        while self.lock.swap(1, SeqCst) != 0 {
            i += 1;
            if i > 50 {
                unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
            }
        }
    }
    fn unlock(&self) {
        self.lock.store(0, SeqCst);
    }
    fn outcome(&self, h: u64) {
        let h = h | 1;
        let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 48) as usize % OUTSET;
        for _ in 0..OUTSET {
            let v = self.outset[i].load(SeqCst);
            if v == h {
                return;
            }
            if v == 0 && self.outset[i].compare_exchange(0, h, SeqCst, SeqCst).is_ok() {
                self.nout.fetch_add(1, SeqCst);
                return;
            }
            if self.outset[i].load(SeqCst) == h {
                return;
            }
            i = (i + 1) % OUTSET;
        }
    }
}

unsafe fn shared_map(len: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub item: u64,
    pub key: String,
    pub msg: String,
    pub devs: Vec<(u32, u8, u32)>,
    pub kind: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub scenario: String,
    pub bound: u32,
    pub execs: u64,
    pub nodes: u64,
    pub steps: u64,
    pub outcomes: u64,
    pub items: u64,
    pub skipped: u64,
    pub maxdec: u64,
    pub complete: bool,
    pub wall: f64,
    pub extra: [u64; 8],
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
}

#[derive(Clone)]
pub struct Opts {
    pub bound: u32,      // deviations
    pub mask: u32,       // kinds of points with scheduling alternatives
    pub steps: u64,      // step limit (termination bound) per execution
    pub secs: u64,       // wall budget for this scenario
    pub hang_secs: u64,  // wall watchdog for one execution
    pub stop_on_first: bool,
    pub expect_deadlock: bool,
    pub item: u64,
    pub stall: u32,      // deviations of a second exploration in which a preempted thread stays away until nobody else can run (at most `bound`; 0 = none)
}

impl Default for Opts {
    fn default() -> Self {
        Opts { bound: 1, mask: K_ALL, steps: 400_000, secs: 300, hang_secs: 20, stop_on_first: true, expect_deadlock: false, item: 0, stall: 99 }
    }
}

pub fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

static mut KNOWN: Vec<String> = Vec::new();
#[allow(static_mut_refs)]
pub fn known() -> &'static mut Vec<String> {
    unsafe { &mut *std::ptr::addr_of_mut!(KNOWN) }
}
fn is_known(scenario: &str, key: &str) -> bool {
    let k = format!("{}:{}", scenario, key);
    known().iter().any(|x| *x == k)
}

pub struct Verdict {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<u64, Verdict>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Verdict> {
    Err(Verdict { key: key.into(), msg: msg.into() })
}

fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur) != 0 {
            return;
        }
        let avail: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &cur)).collect();
        if avail.is_empty() {
            return;
        }
        libc::CPU_SET(avail[cpu % avail.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn wall() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

fn quiet_child() {
    unsafe {
        if std::env::var("MC_VERBOSE").is_err() {
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = Guard::new();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if rt().active {
            if rt().panics.len() < 1000 {
                rt().panics.push(format!("{} at {}", msg, loc));
            }
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("panic t{} {} at {}", cur(), msg, loc);
            }
        } else {
            eprintln!("harness panic: {} at {}", msg, loc);
        }
    }));
}

/// Run in a forked child. `f` returns the outcome hash or a violation.
unsafe fn spawn_exec<F: FnOnce() -> Res>(shm: *mut Shm, devs: Vec<(u32, u8, u32)>, mask: u32, steps: u64, f: F) -> i32 {
    (*shm).outcome = OUT_NONE;
    (*shm).ndec = 0;
    (*shm).steps = 0;
    (*shm).keylen = 0;
    (*shm).msglen = 0;
    (*shm).hash = 0;
    (*shm).items_done = 0;
    (*shm).extra = [0; 8];
    let pid = libc::fork();
    if pid != 0 {
        return pid;
    }
    quiet_child();
    install_panic_hook();
    begin(shm, devs, mask, steps);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _g = Guard::new();
    match r {
        Ok(Ok(h)) => {
            (*shm).hash = h;
            end(OUT_OK)
        }
        Ok(Err(v)) => {
            set_msg(&v.key, &v.msg);
            end(OUT_VIOLATION)
        }
        Err(_) => {
            set_msg("harness-panic", &rt().panics.join("; "));
            end(OUT_INTERNAL)
        }
    }
}

/// wait with watchdog; Some(status) or None when killed for hanging
unsafe fn wait_exec(pid: i32, secs: u64) -> Option<i32> {
    let mut st = 0;
    let fd = raw6(434, pid as i64, 0, 0, 0, 0, 0); // pidfd_open
    if fd >= 0 {
        let mut p = libc::pollfd { fd: fd as i32, events: libc::POLLIN, revents: 0 };
        let r = raw6(libc::SYS_poll, &mut p as *mut _ as i64, 1, secs as i64 * 1000, 0, 0, 0);
        raw6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
        if r == 0 {
            libc::kill(pid, libc::SIGKILL);
            libc::waitpid(pid, &mut st, 0);
            return None;
        }
        libc::waitpid(pid, &mut st, 0);
        return Some(st);
    }
    let t0 = wall();
    let mut spins = 0u32;
    loop {
        let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
        if r == pid {
            return Some(st);
        }
        if r < 0 {
            return Some(0);
        }
        spins += 1;
        let ts = libc::timespec { tv_sec: 0, tv_nsec: if spins < 200 { 50_000 } else { 1_000_000 } };
        raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
        if spins % 64 == 0 && wall() - t0 > secs as f64 {
            libc::kill(pid, libc::SIGKILL);
            libc::waitpid(pid, &mut st, 0);
            return None;
        }
    }
}

unsafe fn record(sh: *mut Shared, shm: *mut Shm, outcome: u32, key: &str, msg: &str, devs: &[(u32, u8, u32)], item: u64) {
    let s = &mut *sh;
    let i = s.nvio.fetch_add(1, SeqCst) as usize;
    if i >= MAXV {
        return;
    }
    let v = &mut s.vio[i];
    v.outcome = outcome;
    v.item = item;
    v.ndevs = devs.len() as u32;
    for (k, d) in devs.iter().enumerate() {
        v.devs[k] = *d;
    }
    let (kb, mb) = (key.as_bytes(), msg.as_bytes());
    let (kl, ml) = (kb.len().min(512), mb.len().min(4096));
    v.key[..kl].copy_from_slice(&kb[..kl]);
    v.msg[..ml].copy_from_slice(&mb[..ml]);
    v.keylen = kl as u32;
    v.msglen = ml as u32;
    let _ = shm;
}

unsafe fn shm_str(shm: *mut Shm) -> (String, String) {
    let k = (*shm).keylen as usize;
    let m = (*shm).msglen as usize;
    let s = &*shm;
    (String::from_utf8_lossy(&s.key[..k]).to_string(), String::from_utf8_lossy(&s.msg[..m]).to_string())
}

/// classify a finished execution: None = fine
unsafe fn classify(shm: *mut Shm, st: Option<i32>, expect_deadlock: bool) -> Option<(u32, String, String)> {
    let (k, m) = shm_str(shm);
    match st {
        None => Some((OUT_STEPS, "hang".into(), format!("execution did not finish within the wall watchdog (loop without any scheduling point?) {}", m))),
        Some(st) => {
            if libc::WIFSIGNALED(st) {
                return Some((OUT_VIOLATION, "crash".into(), format!("process died with signal {} {}", libc::WTERMSIG(st), m)));
            }
            match (*shm).outcome {
                OUT_OK | OUT_SKIP => None,
                OUT_DEADLOCK if expect_deadlock => None,
                OUT_VIOLATION => Some((OUT_VIOLATION, k, m)),
                OUT_DEADLOCK => Some((OUT_DEADLOCK, "deadlock".into(), m)),
                OUT_STEPS => Some((OUT_STEPS, "livelock".into(), m)),
                OUT_NONE => Some((OUT_VIOLATION, "exit".into(), format!("process exited (status {}) in the middle of the execution {}", st, m))),
                o => Some((o, k, m)),
            }
        }
    }
}

/// A finding counts when it comes back: an execution is determined by its decisions, so a real violation
/// is seen again, while a child that a loaded machine starved or killed is not.
unsafe fn confirm<F: Fn() -> i32>(shm: *mut Shm, first: Option<(u32, String, String)>, o: &Opts, again: F) -> Option<(u32, String, String)> {
    let f = first?;
    for _ in 0..3 {
        let pid = again();
        let st = wait_exec(pid, o.hang_secs * 2);
        if let Some(v) = classify(shm, st, o.expect_deadlock) {
            return Some(v);
        }
    }
    eprintln!("  note: not confirmed by running it again three times: {} {}", f.1, f.2);
    None
}

fn collect(sh: &Shared, name: &str, stats: &mut Stats) {
    let n = (sh.nvio.load(SeqCst) as usize).min(MAXV);
    for v in &sh.vio[..n] {
        let key = String::from_utf8_lossy(&v.key[..v.keylen as usize]).to_string();
        let msg = String::from_utf8_lossy(&v.msg[..v.msglen as usize]).to_string();
        if v.outcome == OUT_DIVERGE || v.outcome == OUT_INTERNAL {
            stats.errors.push(format!("{}: {} {} devs={:?} item={}", name, key, msg, &v.devs[..v.ndevs as usize], v.item));
            continue;
        }
        stats.violations.push(Violation {
            scenario: name.to_string(),
            item: v.item,
            key,
            msg,
            devs: v.devs[..v.ndevs as usize].to_vec(),
            kind: v.outcome,
        });
    }
    stats.execs = sh.execs.load(SeqCst);
    stats.nodes = sh.nodes.load(SeqCst);
    stats.steps = sh.steps.load(SeqCst);
    stats.outcomes = sh.nout.load(SeqCst);
    stats.items = sh.items.load(SeqCst);
    stats.skipped = sh.skipped.load(SeqCst);
    stats.maxdec = sh.maxdec.load(SeqCst);
    for i in 0..8 {
        stats.extra[i] = sh.extra[i].load(SeqCst);
    }
}

/// All executions of `f` with at most `o.bound` deviations.
pub fn explore<F: Fn() -> Res>(name: &str, o: &Opts, f: F) -> Stats {
    unsafe {
        let len = std::mem::size_of::<Shared>();
        let sh = shared_map(len) as *mut Shared;
        let s = &mut *sh;
        s.stack[0] = Work::default();
        s.top.store(1, SeqCst);
        let t0 = wall();
        let nw = workers();
        let mut pids = vec![];
        for w in 0..nw {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(w);
                own_dir(w);
                let shm = shared_map(std::mem::size_of::<Shm>()) as *mut Shm;
                explore_worker(name, sh, shm, o, &f, t0);
                raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
            }
            pids.push(pid);
        }
        let mut err = vec![];
        for p in pids {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
            if st != 0 {
                err.push(format!("worker died: status {}", st));
            }
        }
        let mut stats = Stats { scenario: name.to_string(), bound: o.bound, ..Default::default() };
        stats.errors = err;
        collect(s, name, &mut stats);
        stats.wall = wall() - t0;
        stats.complete = s.stop.load(SeqCst) == 0 && s.top.load(SeqCst) == 0 && s.dropped.load(SeqCst) == 0;
        libc::munmap(sh as *mut _, len);
        stats
    }
}

unsafe fn explore_worker<F: Fn() -> Res>(name: &str, sh: *mut Shared, shm: *mut Shm, o: &Opts, f: &F, t0: f64) {
    let s = &mut *sh;
    loop {
        if s.stop.load(SeqCst) != 0 {
            return;
        }
        s.lock();
        let top = s.top.load(SeqCst);
        if top == 0 {
            let b = s.busy.load(SeqCst);
            s.unlock();
            if b == 0 {
                return;
            }
            let ts = libc::timespec { tv_sec: 0, tv_nsec: 200_000 };
            raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
            continue;
        }
        s.busy.fetch_add(1, SeqCst);
        let w = s.stack[top as usize - 1];
        s.top.store(top - 1, SeqCst);
        s.unlock();
        let devs = w.devs[..w.n as usize].to_vec();
        let pid = spawn_exec(shm, devs.clone(), o.mask, o.steps, || f());
        let st = wait_exec(pid, o.hang_secs);
        let verdict = confirm(shm, classify(shm, st, o.expect_deadlock), o, || spawn_exec(shm, devs.clone(), o.mask, o.steps, || f()));
        s.execs.fetch_add(1, SeqCst);
        s.steps.fetch_add((*shm).steps, SeqCst);
        let nd = (*shm).ndec as usize;
        s.maxdec.fetch_max(nd as u64, SeqCst);
        let start = if w.n == 0 { 0 } else { devs[w.n as usize - 1].0 as usize + 1 };
        s.nodes.fetch_add((nd.max(start) - start) as u64 + 1, SeqCst);
        for i in 0..8 {
            s.extra[i].fetch_max((*shm).extra[i], SeqCst);
        }
        s.outcome((*shm).hash ^ ((*shm).outcome as u64) << 56);
        if let Some((out, key, msg)) = verdict {
            record(sh, shm, out, &key, &msg, &devs, o.item);
            if o.stop_on_first && !is_known(name, &key) {
                s.stop.store(1, SeqCst);
            }
        } else if w.n < o.bound {
            // children: one more deviation anywhere after the last one
            s.lock();
            let mut top = s.top.load(SeqCst) as usize;
            for j in start..nd.min(MAXDEC) {
                let d = (*shm).dec[j];
                for c in 1..d.n {
                    if top >= STACK {
                        s.dropped.fetch_add(1, SeqCst);
                        continue;
                    }
                    let mut x = w;
                    x.devs[x.n as usize] = (j as u32, c, d.hash);
                    x.n += 1;
                    s.stack[top] = x;
                    top += 1;
                }
            }
            s.top.store(top as u64, SeqCst);
            s.unlock();
        }
        s.busy.fetch_sub(1, SeqCst);
        if wall() - t0 > o.secs as f64 {
            s.stop.store(2, SeqCst);
        }
    }
}

/// Check every item in 0..n with the default schedule. `f(lo, hi, report)` runs in a controlled child,
/// must call `report(i)` before checking item i and return the first violation.
pub fn enumerate<F>(name: &str, n: u64, chunk: u64, o: &Opts, f: F) -> Stats
where
    F: Fn(u64, u64) -> Res,
{
    unsafe {
        let len = std::mem::size_of::<Shared>();
        let sh = shared_map(len) as *mut Shared;
        let s = &mut *sh;
        let t0 = wall();
        let nw = workers();
        let mut pids = vec![];
        for w in 0..nw {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(w);
                own_dir(w);
                let shm = shared_map(std::mem::size_of::<Shm>()) as *mut Shm;
                loop {
                    if s.stop.load(SeqCst) != 0 || s.nvio.load(SeqCst) as usize >= MAXV {
                        break;
                    }
                    let lo0 = s.next_item.fetch_add(chunk, SeqCst);
                    if lo0 >= n {
                        break;
                    }
                    let hi = (lo0 + chunk).min(n);
                    let mut lo = lo0;
                    while lo < hi {
                        (*shm).item = lo;
                        let pid = spawn_exec(shm, vec![], 0, o.steps, || {
                            rt().sched_on = false;
                            f(lo, hi)
                        });
                        let st = wait_exec(pid, o.hang_secs);
                        let verdict = confirm(shm, classify(shm, st, o.expect_deadlock), o, || {
                            (*shm).item = lo;
                            spawn_exec(shm, vec![], 0, o.steps, || {
                                rt().sched_on = false;
                                f(lo, hi)
                            })
                        });
                        s.execs.fetch_add(1, SeqCst);
                        s.steps.fetch_add((*shm).steps, SeqCst);
                        for i in 0..8 {
                            s.extra[i].fetch_add((*shm).extra[i], SeqCst);
                        }
                        s.outcome((*shm).hash);
                        match verdict {
                            None => {
                                s.items.fetch_add(hi - lo, SeqCst);
                                lo = hi;
                            }
                            Some((out, key, msg)) => {
                                let it = (*shm).item.max(lo);
                                record(sh, shm, out, &key, &msg, &[], it);
                                s.items.fetch_add(it + 1 - lo, SeqCst);
                                lo = it + 1;
                                if s.nvio.load(SeqCst) as usize >= MAXV {
                                    break;
                                }
                            }
                        }
                        if wall() - t0 > o.secs as f64 {
                            s.stop.store(2, SeqCst);
                            break;
                        }
                    }
                }
                raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
            }
            pids.push(pid);
        }
        let mut err = vec![];
        for p in pids {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
            if st != 0 {
                err.push(format!("worker died: status {}", st));
            }
        }
        let mut stats = Stats { scenario: name.to_string(), ..Default::default() };
        stats.errors = err;
        collect(s, name, &mut stats);
        stats.nodes = stats.items;
        stats.wall = wall() - t0;
        stats.complete = s.stop.load(SeqCst) == 0 && stats.items >= n;
        libc::munmap(sh as *mut _, len);
        stats
    }
}

/// Each worker has its own working directory: executions of different workers must not meet in the file system.
fn own_dir(w: usize) {
    let d = format!("w{}", w);
    let _ = std::fs::create_dir_all(&d);
    let _ = std::env::set_current_dir(&d);
}

/// Report progress inside `enumerate`: item `i` is being checked.
pub fn at_item(i: u64) {
    unsafe { (*rt().shm).item = i }
}
pub fn extra(i: usize, v: u64) {
    unsafe { (*rt().shm).extra[i] += v }
}

/// One execution, for replay.
pub fn run_once<F: FnOnce() -> Res>(devs: Vec<(u32, u8, u32)>, mask: u32, steps: u64, hang: u64, expect_deadlock: bool, f: F) -> Option<(u32, String, String)> {
    unsafe {
        let shm = shared_map(std::mem::size_of::<Shm>()) as *mut Shm;
        let pid = spawn_exec(shm, devs, mask, steps, f);
        let st = wait_exec(pid, hang);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("outcome {} steps {} ndec {} hash {:x}", (*shm).outcome, (*shm).steps, (*shm).ndec, (*shm).hash);
        }
        classify(shm, st, expect_deadlock)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn now_wall() -> f64 {
    wall()
}

//! Controlled scheduler: real OS threads, one token, virtual time. All state is touched only by the
//! token holder, so plain statics suffice.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 240;
pub const MAXDEC: usize = 400_000;
pub const MSGLEN: usize = 16384;

// ------------------------------------------------------------------ shared result area
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Dec {
    pub n: u8,
    pub c: u8,
    pub kind: u8,
    pub tid: u8,
    pub hash: u32,
}

#[repr(C)]
pub struct Shm {
    pub outcome: u32, // OUT_*
    pub ndec: u32,
    pub steps: u64,
    pub hash: u64, // outcome hash given by the scenario
    pub item: u64, // enumeration: item being checked
    pub items_done: u64,
    pub extra: [u64; 8],
    pub keylen: u32,
    pub msglen: u32,
    pub key: [u8; 512],
    pub msg: [u8; MSGLEN],
    pub dec: [Dec; MAXDEC],
}

pub const OUT_NONE: u32 = 0;
pub const OUT_OK: u32 = 1;
pub const OUT_VIOLATION: u32 = 2;
pub const OUT_DEADLOCK: u32 = 3;
pub const OUT_STEPS: u32 = 4;
pub const OUT_DIVERGE: u32 = 5;
pub const OUT_INTERNAL: u32 = 6;
pub const OUT_SKIP: u32 = 7;

// ------------------------------------------------------------------ point kinds
pub const K_LOAD: u32 = 1;
pub const K_STORE: u32 = 2;
pub const K_RMW: u32 = 4;
pub const K_CAS: u32 = 8;
pub const K_FENCE: u32 = 16;
pub const K_FUTEX: u32 = 32;
pub const K_NET: u32 = 64;
pub const K_CLOCK: u32 = 128;
pub const K_SPAWN: u32 = 256;
pub const K_APP: u32 = 512;
pub const K_ALL: u32 = 0xffff;
pub const K_REDUCED: u32 = K_STORE | K_RMW | K_CAS | K_FUTEX | K_NET | K_SPAWN | K_APP;
pub const K_COARSE: u32 = K_FUTEX | K_NET | K_SPAWN | K_APP;
// pseudo kinds in the decision log
pub const D_BLOCK: u32 = 1 << 16;
pub const D_ENV: u32 = 1 << 17;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Blocked,
    Finished,
}

pub struct Thr {
    pub go: AtomicU32,
    pub st: St,
    pub key: usize, // wait key while blocked
    pub what: &'static str,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub yielded: bool,
    pub ystamp: u64,
    pub clk_reads: u32,
    pub poller_at: u64,
    pub noeff: u32,
    pub seq: u64, // order in which it blocked (FIFO wake)
    pub pthread: libc::pthread_t,
    pub harness: bool,
    pub born_by: i32,
    pub stalled: bool, // not scheduled before nobody else can run
}

pub struct Rt {
    /// what has been added to the wall clock (ns), the monotonic clock is not affected
    pub skew: i64,
    /// preemptions put the running thread to sleep until nobody else can run
    pub stall: bool,
    /// bit k: the k-th thread the code under test asks for (counted in `creates`) is refused
    pub refuse_threads: u64,
    pub creates: u32,
    pub active: bool,
    pub thr: [Thr; MAXT],
    pub nthr: usize,
    pub now: u64,
    pub progress: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub mask: u32,
    pub ban: u32,
    pub seqno: u64,
    pub quantum: u64,
    pub devs: Vec<(u32, u8, u32)>, // decision index, choice, hash expected
    pub next_dev: usize,
    pub ndec: usize,
    pub trace: u32,
    pub shm: *mut Shm,
    pub panics: Vec<String>,
    pub last_tid: i32,
    pub spawned: u64,
    pub rng: u64,
    pub log: bool,
    pub sched_on: bool,
    pub total_finished: u64,
    pub time_limit: u64,
}

const THR0: Thr = Thr {
    go: AtomicU32::new(0),
    st: St::Free,
    key: 0,
    what: "",
    deadline: None,
    timed_out: false,
    yielded: false,
    ystamp: 0,
    clk_reads: 0,
    poller_at: u64::MAX,
    noeff: 0,
    seq: 0,
    pthread: 0,
    harness: false,
    born_by: -1,
    stalled: false,
};

pub static mut RT: Rt = Rt {
    skew: 0,
    stall: false,
    active: false,
    thr: [THR0; MAXT],
    nthr: 0,
    now: 0,
    progress: 0,
    steps: 0,
    step_limit: 2_000_000,
    refuse_threads: 0,
    creates: 0,
    mask: K_ALL,
    ban: 0,
    seqno: 0,
    quantum: 1_000_000,
    devs: Vec::new(),
    next_dev: 0,
    ndec: 0,
    trace: 0,
    shm: std::ptr::null_mut(),
    panics: Vec::new(),
    last_tid: -1,
    spawned: 0,
    rng: 0x9E3779B97F4A7C15,
    log: false,
    sched_on: true,
    total_finished: 0,
    time_limit: u64::MAX,
};

thread_local! {
    static CUR: Cell<i32> = const { Cell::new(-1) };
    static IN_RT: Cell<bool> = const { Cell::new(false) };
}

#[inline]
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *std::ptr::addr_of_mut!(RT) }
}

#[inline]
pub fn cur() -> i32 {
    CUR.with(|c| c.get())
}

/// true when the calling thread is under the scheduler's control (and not inside the runtime)
#[inline]
pub fn controlled() -> bool {
    rt().active && cur() >= 0 && !IN_RT.with(|c| c.get())
}

pub struct Guard(bool);
impl Guard {
    pub fn new() -> Guard {
        Guard(IN_RT.with(|c| c.replace(true)))
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let v = self.0;
        IN_RT.with(|c| c.set(v));
    }
}

#[inline(never)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn futex_wait_raw(a: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
fn futex_wake_raw(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

fn wait_go(me: usize) {
    let g = &rt().thr[me].go;
    while g.swap(0, Ordering::SeqCst) == 0 {
        futex_wait_raw(g, 0);
    }
}
fn give(to: usize) {
    let g = &rt().thr[to].go;
    g.store(1, Ordering::SeqCst);
    futex_wake_raw(g);
}

// ------------------------------------------------------------------ ending an execution
pub fn set_msg(key: &str, msg: &str) {
    let s = unsafe { &mut *rt().shm };
    let k = &key.as_bytes()[..key.len().min(512)];
    s.key[..k.len()].copy_from_slice(k);
    s.keylen = k.len() as u32;
    let m = &msg.as_bytes()[..msg.len().min(MSGLEN)];
    s.msg[..m.len()].copy_from_slice(m);
    s.msglen = m.len() as u32;
}

pub fn end(outcome: u32) -> ! {
    let r = rt();
    unsafe {
        let s = &mut *r.shm;
        s.steps = r.steps;
        s.ndec = r.ndec.min(MAXDEC) as u32;
        s.outcome = outcome;
        raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn describe_threads() -> String {
    let r = rt();
    let mut s = String::new();
    for i in 0..r.nthr {
        let t = &r.thr[i];
        if t.st == St::Free || t.st == St::Finished {
            continue;
        }
        s += &format!("[t{} {:?} {}{}] ", i, t.st, if t.yielded { "yielded " } else { "" }, t.what);
    }
    s
}

fn internal(msg: &str) -> ! {
    set_msg("internal", msg);
    end(OUT_INTERNAL)
}

// ------------------------------------------------------------------ decisions
fn mix(h: u32, v: u32) -> u32 {
    (h ^ v).wrapping_mul(16777619).rotate_left(5)
}

/// Choose one of `n` alternatives; 0 is the default, anything else is a deviation.
pub fn decide(n: usize, kind: u32) -> usize {
    if n <= 1 {
        return 0;
    }
    let r = rt();
    let n = n.min(255);
    let idx = r.ndec;
    r.ndec += 1;
    let tid = cur() as u8;
    r.trace = mix(r.trace, (kind << 8) ^ ((n as u32) << 3) ^ tid as u32);
    let mut c = 0usize;
    if r.next_dev < r.devs.len() && r.devs[r.next_dev].0 as usize == idx {
        let (_, ch, h) = r.devs[r.next_dev];
        if (ch as usize) >= n || (h != 0 && h != r.trace) {
            set_msg("diverge", &format!("decision {} n={} wanted {} hash {:x} vs {:x}", idx, n, ch, r.trace, h));
            end(OUT_DIVERGE);
        }
        c = ch as usize;
        r.next_dev += 1;
    }
    if idx < MAXDEC {
        let k = if kind & D_BLOCK != 0 { 100 } else if kind & D_ENV != 0 { 101 } else { kind.trailing_zeros() as u8 };
        unsafe { (*r.shm).dec[idx] = Dec { n: n as u8, c: c as u8, kind: k, tid, hash: r.trace } };
    }
    r.trace = mix(r.trace, c as u32 + 77);
    c
}

/// Environment choice made by harness code.
pub fn choose(n: usize) -> usize {
    let _g = Guard::new();
    decide(n, D_ENV)
}

fn eligible(r: &Rt, i: usize) -> bool {
    let t = &r.thr[i];
    t.st == St::Runnable && !t.stalled && (!t.yielded || r.progress > t.ystamp)
}

fn switch_to(me: usize, to: usize) {
    if me == to {
        return;
    }
    rt().last_tid = to as i32;
    give(to);
    wait_go(me);
}

/// Next point for the current thread. `effect`: the operation about to run may change shared state.
pub fn point(kind: u32, effect: bool) {
    let me = cur() as usize;
    let r = rt();
    r.steps += 1;
    if r.steps > r.step_limit {
        set_msg("steps", &format!("step limit {} at t={}ms {}", r.step_limit, r.now / 1_000_000, describe_threads()));
        end(OUT_STEPS);
    }
    if r.sched_on && kind & r.mask != 0 {
        let mut opts = [0u8; MAXT];
        opts[0] = me as u8;
        let mut n = 1;
        for k in 1..r.nthr {
            let i = (me + k) % r.nthr;
            if eligible(r, i) {
                opts[n] = i as u8;
                n += 1;
            }
        }
        if n > 1 && r.stall {
            if decide(2, kind) == 1 {
                r.thr[me].stalled = true;
                reschedule(me, false);
            }
        } else if n > 1 {
            let c = decide(n, kind);
            if c != 0 {
                switch_to(me, opts[c] as usize);
            }
        }
    }
    if effect {
        crate::rt::effect();
    } else {
        // a spin loop without any yield: be fair
        let t = &mut rt().thr[me];
        t.noeff += 1;
        if t.noeff > 100 {
            t.noeff = 0;
            yield_now(false);
        }
    }
}

/// The current thread changed shared state.
pub fn effect() {
    let r = rt();
    let t = &mut r.thr[cur() as usize];
    t.noeff = 0;
    if t.poller_at != r.now {
        r.progress += 1;
    }
}

/// Current thread cannot continue: pick another one (or advance time).
fn reschedule(me: usize, finished: bool) {
    loop {
        let r = rt();
        let mut opts = [0u8; MAXT];
        let mut n = 0;
        for k in 1..=r.nthr {
            let i = (me + k) % r.nthr;
            if eligible(r, i) && !r.thr[i].yielded {
                opts[n] = i as u8;
                n += 1;
            }
        }
        for k in 1..=r.nthr {
            let i = (me + k) % r.nthr;
            if eligible(r, i) && r.thr[i].yielded {
                opts[n] = i as u8;
                n += 1;
            }
        }
        if n == 0 && r.stall {
            let mut any = false;
            for i in 0..r.nthr {
                any |= r.thr[i].stalled;
                r.thr[i].stalled = false;
            }
            if any {
                continue;
            }
        }
        if n == 0 {
            if !advance() {
                set_msg("deadlock", &format!("no thread can run and no timer is pending at t={}ms: {}", r.now / 1_000_000, describe_threads()));
                end(OUT_DEADLOCK);
            }
            continue;
        }
        let c = if r.sched_on { decide(n, D_BLOCK) } else { 0 };
        let to = opts[c] as usize;
        r.thr[to].yielded = false;
        if finished {
            give(to);
            return;
        }
        switch_to(me, to);
        return;
    }
}

fn advance() -> bool {
    let r = rt();
    let mut next: Option<u64> = None;
    let mut poll = false;
    for i in 0..r.nthr {
        let t = &r.thr[i];
        match t.st {
            St::Blocked => {
                if let Some(d) = t.deadline {
                    next = Some(next.map_or(d, |x| x.min(d)));
                }
            }
            St::Runnable => poll = true,
            _ => {}
        }
    }
    let target = match (poll, next) {
        (false, None) => return false,
        (false, Some(d)) => d,
        (true, None) => r.now + r.quantum,
        (true, Some(d)) => d.min(r.now + r.quantum),
    };
    if target > r.time_limit {
        set_msg("steps", &format!("virtual time limit at t={}ms {}", r.now / 1_000_000, describe_threads()));
        end(OUT_STEPS);
    }
    r.now = r.now.max(target);
    r.steps += 1;
    if r.steps > r.step_limit {
        set_msg("steps", &format!("step limit {} at t={}ms {}", r.step_limit, r.now / 1_000_000, describe_threads()));
        end(OUT_STEPS);
    }
    for i in 0..r.nthr {
        let now = r.now;
        let t = &mut r.thr[i];
        if t.st == St::Blocked && t.deadline.map_or(false, |d| d <= now) {
            t.st = St::Runnable;
            t.timed_out = true;
        }
        t.yielded = false;
        t.clk_reads = 0;
    }
    true
}

/// Block the current thread on `key` until woken or the deadline; true = woken, false = timed out.
pub fn block(key: usize, deadline: Option<u64>, what: &'static str) -> bool {
    let me = cur() as usize;
    let r = rt();
    r.seqno += 1;
    let seq = r.seqno;
    if let Some(d) = deadline {
        if d <= r.now {
            return false;
        }
    }
    {
        let t = &mut r.thr[me];
        t.st = St::Blocked;
        t.key = key;
        t.deadline = deadline;
        t.timed_out = false;
        t.what = what;
        t.seq = seq;
        t.clk_reads = 0;
        t.poller_at = u64::MAX;
    }
    reschedule(me, false);
    let t = &mut rt().thr[me];
    t.what = "";
    t.deadline = None;
    !t.timed_out
}

/// Wake up to `n` threads blocked on `key`, first blocked first; returns how many.
pub fn wake(key: usize, n: usize) -> usize {
    let r = rt();
    let mut done = 0;
    while done < n {
        let mut best: Option<usize> = None;
        for i in 0..r.nthr {
            if r.thr[i].st == St::Blocked && r.thr[i].key == key && best.map_or(true, |b| r.thr[i].seq < r.thr[b].seq) {
                best = Some(i);
            }
        }
        match best {
            None => break,
            Some(i) => {
                r.thr[i].st = St::Runnable;
                r.thr[i].timed_out = false;
                done += 1;
            }
        }
    }
    done
}

/// sched_yield or a polling loop: run somebody else first.
pub fn yield_now(poller: bool) {
    let me = cur() as usize;
    let r = rt();
    r.steps += 1;
    if r.steps > r.step_limit {
        set_msg("steps", &format!("step limit {} at t={}ms {}", r.step_limit, r.now / 1_000_000, describe_threads()));
        end(OUT_STEPS);
    }
    if poller {
        r.thr[me].poller_at = r.now;
    }
    r.thr[me].yielded = true;
    r.thr[me].ystamp = r.progress;
    reschedule(me, false);
    rt().thr[me].yielded = false;
}

pub fn clock_read() -> u64 {
    let me = cur() as usize;
    let t = &mut rt().thr[me];
    t.clk_reads += 1;
    if t.clk_reads >= 4 {
        t.clk_reads = 0;
        yield_now(true);
    }
    rt().now
}

pub fn sleep_ns(ns: u64) {
    let d = rt().now + ns;
    if ns == 0 {
        yield_now(false);
        return;
    }
    block(usize::MAX - 1, Some(d), "sleep");
}

// ------------------------------------------------------------------ threads
extern "C" fn key_dtor(_: *mut libc::c_void) {
    if !rt().active {
        return;
    }
    let me = cur();
    if me < 0 {
        return;
    }
    let me = me as usize;
    let r = rt();
    r.thr[me].st = St::Finished;
    r.thr[me].pthread = 0;
    r.total_finished += 1;
    r.progress += 1;
    wake(JOIN_KEY | me, usize::MAX);
    reschedule(me, true);
    CUR.with(|c| c.set(-1));
}

pub const JOIN_KEY: usize = 1 << 62;
static mut KEY: libc::pthread_key_t = 0;

struct Start {
    tid: usize,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

extern "C" fn thread_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let (tid, f, arg) = (s.tid, s.f, s.arg);
    drop(s);
    CUR.with(|c| c.set(tid as i32));
    unsafe { libc::pthread_setspecific(KEY, 1 as *const libc::c_void) };
    wait_go(tid);
    f(arg)
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

pub fn init_process() {
    unsafe {
        REAL_CREATE = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _)));
        REAL_JOIN = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _)));
        libc::pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(std::mem::transmute(key_dtor as extern "C" fn(*mut libc::c_void))));
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> libc::c_int {
    let real = REAL_CREATE.unwrap();
    if !controlled() {
        return real(out, attr, f, arg);
    }
    let _g = Guard::new();
    point(K_SPAWN, true);
    let r = rt();
    if !HARNESS.with(|h| h.get()) {
        let k = r.creates;
        r.creates += 1;
        if r.refuse_threads == u64::MAX || k < 64 && r.refuse_threads >> k & 1 == 1 {
            return libc::EAGAIN;
        }
    }
    let mut tid = MAXT;
    for i in 0..MAXT {
        if r.thr[i].st == St::Free || (r.thr[i].st == St::Finished && r.nthr >= 40) {
            tid = i;
            break;
        }
    }
    if tid == MAXT {
        set_msg("steps", &format!("{} threads are alive at t={}ms {}", MAXT, r.now / 1_000_000, describe_threads().chars().take(2000).collect::<String>()));
        end(OUT_STEPS);
    }
    let t = &mut r.thr[tid];
    t.st = St::Runnable;
    t.stalled = false;
    t.go = AtomicU32::new(0);
    t.yielded = false;
    t.poller_at = u64::MAX;
    t.clk_reads = 0;
    t.what = "";
    t.born_by = cur();
    t.harness = HARNESS.with(|h| h.get());
    r.nthr = r.nthr.max(tid + 1);
    r.spawned += 1;
    let s = Box::into_raw(Box::new(Start { tid, f, arg }));
    let rc = real(out, attr, thread_main, s as *mut libc::c_void);
    if rc != 0 {
        internal("pthread_create failed");
    }
    r.thr[tid].pthread = *out;
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    let real = REAL_JOIN.unwrap();
    if controlled() {
        let _g = Guard::new();
        point(K_FUTEX, false);
        let r = rt();
        for i in 0..r.nthr {
            if r.thr[i].pthread == t && matches!(r.thr[i].st, St::Runnable | St::Blocked) {
                while rt().thr[i].st != St::Finished {
                    block(JOIN_KEY | i, None, "join");
                }
                break;
            }
        }
    }
    real(t, ret)
}

thread_local! { static HARNESS: Cell<bool> = const { Cell::new(false) }; }

/// Start a harness thread (not counted in the thread census of the code under test).
pub fn spawn_harness<F: FnOnce() + Send + 'static>(f: F) -> std::thread::JoinHandle<()> {
    HARNESS.with(|h| h.set(true));
    let j = std::thread::spawn(f);
    HARNESS.with(|h| h.set(false));
    j
}

/// Live threads created by the code under test.
pub fn live_threads() -> usize {
    let r = rt();
    (0..r.nthr).filter(|&i| !r.thr[i].harness && i != 0 && (r.thr[i].st == St::Runnable || r.thr[i].st == St::Blocked)).count()
}

/// Begin controlled execution in this (single-threaded, forked) process.
pub fn begin(shm: *mut Shm, devs: Vec<(u32, u8, u32)>, mask: u32, step_limit: u64) {
    let r = rt();
    r.shm = shm;
    r.devs = devs;
    r.mask = mask;
    r.step_limit = step_limit;
    r.thr[0].st = St::Runnable;
    r.thr[0].harness = true;
    r.nthr = 1;
    r.now = 1_600_000_000_000_000_000;
    r.last_tid = 0;
    CUR.with(|c| c.set(0));
    r.active = true;
}

/// From now on the k-th thread asked for is refused if bit k is set.
pub fn refuse_threads(mask: u64) {
    rt().refuse_threads = mask;
    rt().creates = 0;
}
pub fn creates() -> u32 {
    rt().creates
}

/// Somebody sets the wall clock forward or back.
pub fn step_clock(ms: i64) {
    rt().skew += ms * 1_000_000;
}

pub fn now_ms() -> u64 {
    (rt().now - 1_600_000_000_000_000_000) / 1_000_000
}

/// Harness: let virtual time pass (everything that can run, runs).
pub fn settle(ms: u64) {
    let _g = Guard::new();
    sleep_ns(ms * 1_000_000);
}

/// Harness scheduling point.
pub fn app_point() {
    if controlled() {
        let _g = Guard::new();
        point(K_APP, true);
    }
}

/// Harness wait: block until `f` holds or `ms` of virtual time passed; re-evaluated on every `notify_app`.
pub fn wait_until<F: FnMut() -> bool>(ms: Option<u64>, what: &'static str, mut f: F) -> bool {
    let _g = Guard::new();
    let dl = ms.map(|m| rt().now + m * 1_000_000);
    loop {
        if f() {
            return true;
        }
        if !block(APP_KEY, dl, what) {
            return f();
        }
    }
}
pub const APP_KEY: usize = usize::MAX - 7;
pub fn notify_app() {
    if rt().active && cur() >= 0 {
        let _g = Guard::new();
        rt().progress += 1;
        wake(APP_KEY, usize::MAX);
    }
}

pub fn panics() -> &'static mut Vec<String> {
    &mut rt().panics
}

/// Run `f` without schedule exploration (set-up phases).
pub fn no_sched<T, F: FnOnce() -> T>(f: F) -> T {
    let old = rt().sched_on;
    rt().sched_on = false;
    let x = f();
    rt().sched_on = old;
    x
}

pub fn rand64() -> u64 {
    let r = rt();
    r.rng = r.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    r.rng
}

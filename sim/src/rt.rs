//! The simulator: every thread, allocation, futex, clock reading, entropy request, CPU count and
//! write to standard output of the code under test goes through here while a run is active.
//! One task holds the token at any time; who gets it next is decided by the run's PRNG (live run)
//! or by the recorded decisions (replay).
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAXT: usize = 40;
pub const MAXG: usize = 1 << 16;
pub const END: u32 = u32::MAX;
pub const NEVER: u64 = u64::MAX;

// ---------------------------------------------------------------- raw system calls
#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r } }
unsafe fn fwait(a: &AtomicU32, v: u32) { raw6(202, a as *const _ as i64, 128, v as i64, 0, 0, 0); }
unsafe fn fwake(a: &AtomicU32) { raw6(202, a as *const _ as i64, 129, 1, 0, 0, 0); }
pub fn raw_write(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let r = unsafe { raw6(1, fd as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64, 0, 0, 0) };
        if r == -4 { continue; }
        if r <= 0 { break; }
        o += r as usize;
    }
}
pub fn exit_now(code: i32) -> ! { unsafe { loop { raw6(231, code as i64, 0, 0, 0, 0, 0); } } }

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn pct(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// log-uniform in 1..=n
    pub fn logu(&mut self, n: u64) -> u64 {
        if n <= 1 { return 1; }
        let bits = 64 - n.leading_zeros() as u64;
        let b = self.below(bits);
        let lo = 1u64 << b;
        let hi = std::cmp::min(n, (lo << 1) - 1);
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    /// geometric-like with the given mean, at least 1
    pub fn geo(&mut self, mean: u64) -> u64 {
        let u = (self.u() >> 11) as f64 / (1u64 << 53) as f64;
        let v = -(1.0 - u).ln() * mean as f64;
        1 + v as u64
    }
}

// ---------------------------------------------------------------- state
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum St { Free, Ready, Futex, Sleep, Join, Stalled, Done }

pub struct Task {
    pub id: usize, pub st: St, go: AtomicU32, pub in_call: bool,
    pub op: u32, pub ev: u64, next: u64, next_switch: u64, pub allocs: u64,
    pub oom_at: u64, pub oom_fired: bool, pub stall_at: u64, pub oom_novel: bool, pub stall_novel: bool,
    pub budget: u64, waddr: usize, wdl: u64, woken: bool, join_on: usize,
    pthread: u64, pub spawned: bool, pub slow_rt: bool,
    pub prio: u32, fs: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// switch only at call boundaries and when blocked
    Boundary(u64),
    /// switch after geometric slices of this mean number of events
    Slice(u64),
    /// switch at targeted and never-seen basic blocks, and at call boundaries
    Guard(u64),
    /// priorities, changed at geometric intervals
    Prio(u64),
}
pub struct Sim {
    pub active: bool, pub n: usize, pub ctl: AtomicU32, pub cur: usize,
    pub rng: Rng, pub replay: bool, pub policy: Policy,
    pub decisions: Vec<(usize, u32, u64, u32, usize)>,
    pub plan: BTreeMap<(usize, u32, u64, u32), usize>,
    pub resolved: Vec<String>,
    pub hash: u64, pub stats: BTreeMap<&'static str, u64>,
    pub now: u64, pub real_base: u64, pub clock_jumpy: bool, pub env_rng: Rng, pub cpus: usize, pub entropy: Rng,
    pub out_plan: Vec<(u64, i64)>, pub out_tail: i64, pub out_tail_from: u64, pub over: bool, pub out_n: u64,
    pub report_fd: i32, pub switches: u64, pub ev_total: u64, pub log: Vec<String>, pub logging: bool,
    pub finished: bool, pub wave: u64, pub env_random: bool, pub pid: i32, pub stack_off: usize, pub stack_n: usize,
}
const T0: Task = Task { id: 0, st: St::Free, go: AtomicU32::new(0), in_call: false, op: 0, ev: 0, next: NEVER, next_switch: NEVER,
    allocs: 0, oom_at: NEVER, oom_fired: false, stall_at: NEVER, oom_novel: false, stall_novel: false, budget: NEVER, waddr: 0, wdl: NEVER,
    woken: false, join_on: 0, pthread: 0, spawned: false, slow_rt: false, prio: 0, fs: 0 };
pub static mut TASKS: [Task; MAXT] = [T0; MAXT];
pub static mut SIM: Option<Box<Sim>> = None;
static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static mut GCNT: [u32; MAXG] = [0; MAXG];
pub static mut GFEV: [u64; MAXG] = [0; MAXG];
pub static mut GFAL: [u64; MAXG] = [0; MAXG];
pub static mut WATCH: [u8; MAXG] = [0; MAXG];
pub static mut WLEFT: [u8; MAXG] = [0; MAXG];
pub static NGUARDS: AtomicU32 = AtomicU32::new(0);
thread_local! { static CTX: Cell<*mut Task> = const { Cell::new(std::ptr::null_mut()) } }

#[inline(always)]
fn ctx() -> *mut Task { CTX.with(|c| c.get()) }
pub fn sim() -> &'static mut Sim { unsafe { SIM.as_mut().unwrap() } }
pub fn me() -> &'static mut Task { unsafe { &mut *ctx() } }
pub fn task(i: usize) -> &'static mut Task { unsafe { &mut TASKS[i] } }
pub fn count(k: &'static str) { *sim().stats.entry(k).or_insert(0) += 1; }
pub fn fold(x: u64) { let s = sim(); s.hash = mix(s.hash ^ x); }
pub fn fold_str(x: &str) { let mut h = 0xcbf29ce484222325u64; for b in x.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } fold(h); }

pub fn new_sim(seed: u64) -> Box<Sim> {
    Box::new(Sim { active: false, n: 0, ctl: AtomicU32::new(0), cur: usize::MAX, rng: Rng(mix(seed)), replay: false, policy: Policy::Slice(1000),
        decisions: vec![], plan: BTreeMap::new(), resolved: vec![], hash: 1, stats: BTreeMap::new(), now: 1_000_000_000,
        real_base: 1_600_000_000_000_000_000, clock_jumpy: false, env_rng: Rng(mix(seed ^ 77)), cpus: 4, entropy: Rng(0x5eed), out_plan: vec![], out_tail: 0, out_tail_from: 0, over: false,
        out_n: 0, report_fd: -1, switches: 0, ev_total: 0, log: vec![], logging: false, finished: false, wave: 0, env_random: false, pid: 4242, stack_off: 0, stack_n: 0 })
}
pub fn install(s: Box<Sim>) { unsafe { SIM = Some(s); } ACTIVE.store(true, SeqCst); sim().active = true; }

// ---------------------------------------------------------------- scheduling
unsafe fn wait_self(c: &mut Task) {
    loop { if c.go.swap(0, Acquire) == 1 { break; } fwait(&c.go, 0); }
}
unsafe fn wake(i: usize) { TASKS[i].go.store(1, Release); fwake(&TASKS[i].go); }

/// Why control is passed on; part of a decision's key.
pub const K_BEGIN: u32 = 0;
pub const K_PREEMPT: u32 = 1;
pub const K_BLOCK: u32 = 2;
pub const K_END: u32 = 3;
fn refresh(c: &mut Task) {
    let s = sim();
    c.next_switch = NEVER;
    if s.replay {
        if let Some((k, _)) = s.plan.range((c.id, c.op, c.ev + 1, 0)..(c.id, c.op + 1, 0, 0)).next() { c.next_switch = k.2; }
        if c.op == END { c.next_switch = NEVER; }
    } else if c.in_call || c.spawned {
        match s.policy {
            Policy::Boundary(_) => { c.next_switch = c.ev + 3_000_000; }
            Policy::Slice(m) => { c.next_switch = c.ev + s.rng.geo(m); }
            Policy::Guard(_) => { c.next_switch = c.ev + 400_000 + s.rng.below(400_000); }
            Policy::Prio(m) => { c.next_switch = c.ev + s.rng.geo(m); }
        }
    }
    limits(c);
}
fn limits(c: &mut Task) { c.next = c.next_switch.min(c.stall_at).min(c.budget); }

/// Chooses who runs next. `cur_ok`: the caller itself may go on.
fn choose(from: (usize, u32, u64, u32), cur_ok: bool) -> Option<usize> {
    let s = sim();
    loop {
        if !(0..s.n).any(|i| !task(i).spawned && matches!(task(i).st, St::Ready | St::Futex | St::Sleep | St::Join)) { return None; }
        let mut cand = [0usize; MAXT];
        let mut n = 0;
        for i in 0..s.n { let t = task(i); if t.st == St::Ready { cand[n] = i; n += 1; } }
        if n == 0 {
            // let simulated time pass to the next deadline
            let mut best: Option<usize> = None;
            for i in 0..s.n {
                let t = task(i);
                if (t.st == St::Futex || t.st == St::Sleep) && t.wdl != NEVER && best.map_or(true, |b| t.wdl < task(b).wdl) { best = Some(i); }
            }
            match best {
                Some(b) => { let t = task(b); if s.now < t.wdl { s.now = t.wdl; } t.st = St::Ready; t.woken = false; count("timer_jumps"); continue; }
                None => return None,
            }
        }
        let cand = &cand[..n];
        if s.replay {
            return Some(match s.plan.get(&from) {
                Some(&to) if cand.contains(&to) => to,
                _ => if cur_ok { from.0 } else { cand[0] },
            });
        }
        let to = match s.policy {
            Policy::Prio(_) => {
                if s.rng.pct(60) { let k = *s.rng.pick(cand); task(k).prio = s.rng.below(1000) as u32; }
                *cand.iter().max_by_key(|&&i| task(i).prio).unwrap()
            }
            _ => {
                let others: Vec<usize> = cand.iter().cloned().filter(|&i| i != from.0).collect();
                if cur_ok && !others.is_empty() { *s.rng.pick(&others) } else { *s.rng.pick(cand) }
            }
        };
        return Some(to);
    }
}
fn hand_over(c: &mut Task, cur_ok: bool, kind: u32) {
    let k = (c.id, c.op, c.ev, kind);
    let ic = c.in_call;
    c.in_call = false;
    match choose(k, cur_ok) {
        Some(to) => {
            let s = sim();
            let default = if cur_ok { k.0 } else { (0..s.n).find(|&i| task(i).st == St::Ready).unwrap_or(usize::MAX) };
            if to != default { s.decisions.push((k.0, k.1, k.2, k.3, to)); fold(k.0 as u64 * 31 + k.1 as u64 * 7 + k.2 * 131 + to as u64); }
            if to != c.id {
                s.switches += 1;
                if cur_ok && ic { count("preempt_in_call"); }
                s.cur = to;
                unsafe { wake(to); wait_self(c); }
            } else { s.cur = to; }
        }
        None => {
            // nobody can run
            idle();
            unsafe { wait_self(c); }
        }
    }
    c.in_call = ic;
    refresh(c);
}
/// Nobody is runnable: finished, or blocked.
fn idle() {
    let s = sim();
    let blocked: Vec<String> = (0..s.n).filter(|&i| !task(i).spawned && matches!(task(i).st, St::Futex | St::Sleep | St::Join)).map(|i| format!("task {} op {}", i, task(i).op)).collect();
    let stalled: Vec<String> = (0..s.n).filter(|&i| task(i).st == St::Stalled).map(|i| format!("task {} op {}", i, task(i).op)).collect();
    if !blocked.is_empty() {
        violation("blocked", &format!("waiting forever: {}; suspended: {}", blocked.join(", "), if stalled.is_empty() { "none".into() } else { stalled.join(", ") }));
    }
    s.finished = true;
    s.ctl.store(1, Release);
    unsafe { fwake(&s.ctl); }
}
#[cold]
fn slow(c: &mut Task) {
    let ic = c.in_call;
    c.in_call = false;
    c.slow_rt = true;
    if c.ev >= c.budget {
        violation("no-end", &format!("task {} op {} has not ended after {} events (bound {})", c.id, c.op, c.ev, c.budget));
    }
    if c.ev >= c.stall_at {
        c.stall_at = NEVER;
        c.st = St::Stalled;
        count("fault_suspend_forever");
        let s = sim();
        s.resolved.push(format!("stall {} {} {}", c.id, c.op, c.ev));
        fold(0x57a11 ^ c.ev);
        c.in_call = ic; c.slow_rt = false;
        hand_over(c, false, K_BLOCK);
        unreachable!();
    }
    let sw = c.ev >= c.next_switch;
    c.in_call = ic;
    c.slow_rt = false;
    if sw { hand_over(c, true, K_PREEMPT); } else { limits(c); }
}
#[inline(always)]
fn point(c: &mut Task) { c.ev += 1; if c.ev >= c.next { slow(c); } }

#[cold]
fn watch_hit(c: &mut Task, g: usize) {
    unsafe {
        let s = sim();
        if s.replay || WLEFT[g] == 0 { WATCH[g] = 0; return; }
        WLEFT[g] -= 1;
        let novel = WATCH[g] == 2;
        if novel && c.stall_novel && s.rng.pct(40) { c.stall_novel = false; c.stall_at = c.ev + s.rng.below(12); limits(c); return; }
        if novel && c.oom_novel && s.rng.pct(40) { c.oom_novel = false; c.oom_at = c.allocs + 1 + s.rng.below(3); return; }
        if let Policy::Guard(p) = s.policy {
            if s.rng.pct(p) { c.next_switch = c.ev + s.rng.below(8); limits(c); }
        }
    }
}
// ---------------------------------------------------------------- instrumentation callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 { let n = NGUARDS.fetch_add(1, Relaxed) + 1; *p = if (n as usize) < MAXG { n } else { (MAXG - 1) as u32 }; }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = ctx();
    if c.is_null() { return; }
    let c = &mut *c;
    if !c.in_call { return; }
    let id = *g as usize;
    c.ev += 1;
    let n = GCNT[id];
    if n == 0 { GFEV[id] = c.ev; GFAL[id] = c.allocs; }
    GCNT[id] = n.saturating_add(1);
    if WATCH[id] != 0 { watch_hit(c, id); }
    if c.ev >= c.next { slow(c); }
}
macro_rules! mem { ($st:literal $($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(_a: *const u8) {
    let c = ctx(); if c.is_null() { return; } let c = &mut *c; if !c.in_call { return; }
    seen(c, _a as usize, $st);
    point(c);
})* } }
#[inline(always)]
unsafe fn seen(c: &mut Task, a: usize, store: bool) {
    if a.wrapping_sub(DATA.0) < DATA.1 { touch(c, 1); } else if c.fs.wrapping_sub(a).wrapping_sub(1) < DATA.2 { touch(c, 0); }
    else if a.wrapping_sub(ARENA) < POOLED { operand(c, (a - ARENA) / 16, store); } else if a.wrapping_sub(HELD.0) < HELD.1 { operand(c, SHADOW_N - 1 - (a - HELD.0) / 16, store); }
}
/// The shared operands: how far into the heap, and where and how long, the memory is in which they may lie; and for each
/// 16 bytes whether they do (1), and whether a call has changed it since they were built (2).
static mut POOLED: usize = 0;
static mut HELD: (usize, usize) = (0, 0);
const SHADOW_N: usize = 1 << 22;
static mut SHADOW: *mut u8 = std::ptr::null_mut();
static mut POOLING: bool = false;
pub fn pool_begin() { unsafe { SHADOW = libc::mmap(std::ptr::null_mut(), SHADOW_N, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8; POOLING = true; } }
/// The shared operands are complete; they themselves are at the given place.
pub fn pool_end(at: usize, len: usize) {
    unsafe {
        POOLING = false;
        POOLED = (BUMP - ARENA).min((SHADOW_N - 8192) * 16);
        HELD = (at, len.min(8192 * 16));
        for k in 0..HELD.1 / 16 { *SHADOW.add(SHADOW_N - 1 - k) = 1; }
    }
}
#[inline(always)]
unsafe fn operand(c: &mut Task, g: usize, store: bool) {
    let m = SHADOW.add(g);
    if store { if *m != 0 { *m = 2; touch(c, 2); } } else if *m == 2 { touch(c, 2); }
}
unsafe fn mark(p: usize, n: usize, v: u8) { let g = (p - ARENA) / 16; if g + n / 16 + 1 < SHADOW_N - 8192 { std::ptr::write_bytes(SHADOW.add(g), v, (n + 15) / 16); } }
/// The program's writable static data (start, length), and the length of the thread-local block that ends at `fs`.
static mut DATA: (usize, usize, usize) = (0, 0, 0);
/// How often the crate looked at or changed static and thread-local data.
pub static mut TOUCHED: [u64; 3] = [0; 3];
static mut TOUCHES_LEFT: u32 = 300;
/// Finds out where static data lives. Once per process, before anything is run.
pub fn find_statics() {
    unsafe extern "C" fn each(i: *mut libc::dl_phdr_info, _: usize, _: *mut libc::c_void) -> libc::c_int {
        let i = &*i;
        let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
        let relro = ph.iter().find(|p| p.p_type == libc::PT_GNU_RELRO).map_or((0, 0), |p| (p.p_vaddr, p.p_vaddr + p.p_memsz));
        for p in ph {
            if p.p_type == libc::PT_TLS { DATA.2 = ((p.p_memsz + p.p_align - 1) / p.p_align * p.p_align) as usize; }
            if p.p_type == libc::PT_LOAD && p.p_flags & 2 != 0 && !(p.p_vaddr >= relro.0 && p.p_vaddr < relro.1) {
                DATA.0 = i.dlpi_addr as usize + p.p_vaddr as usize; DATA.1 = p.p_memsz as usize;
            }
        }
        1 // the program itself comes first; the rest is of no interest
    }
    unsafe { libc::dl_iterate_phdr(Some(each), std::ptr::null_mut()); }
}
/// The crate is at static data (1), thread-local data (0), or data that calls keep in shared operands (2): a place where
/// faults and switches may matter.
#[cold]
fn touch(c: &mut Task, what: usize) {
    unsafe {
        TOUCHED[what] += 1;
        let s = sim();
        if s.replay || TOUCHES_LEFT == 0 { return; }
        if c.stall_novel && s.rng.pct(20) { c.stall_novel = false; c.stall_at = c.ev + s.rng.below(8); limits(c); TOUCHES_LEFT -= 1; return; }
        if c.oom_novel && s.rng.pct(20) { c.oom_novel = false; c.oom_at = c.allocs + 1 + s.rng.below(3); TOUCHES_LEFT -= 1; return; }
        if what == 0 { return; }
        if let Policy::Guard(p) = s.policy {
            if s.rng.pct(p) { TOUCHES_LEFT -= 1; c.next_switch = c.next_switch.min(c.ev + s.rng.below(5)); limits(c); }
        }
    }
}
mem!(false __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
mem!(true __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
// Atomic operations: one step each, with a switch possible before it.
macro_rules! atomics { ($(($t:ty, $a:ident, $ld:ident $st:ident $xc:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident))*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $ld(a: *const $t, _: i32) -> $t { atomic(a as usize, false); (*(a as *const std::sync::atomic::$a)).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $st(a: *const $t, v: $t, _: i32) { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xc(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $t, v: $t, _: i32) -> $t { atomic(a as usize, true); (*(a as *const std::sync::atomic::$a)).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cas(a: *const $t, c: $t, v: $t, _: i32, _: i32) -> $t { atomic(a as usize, true); match (*(a as *const std::sync::atomic::$a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
)* } }
atomics! {
    (u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val)
    (u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val)
    (u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val)
    (u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val)
}
#[inline(always)]
unsafe fn atomic(a: usize, store: bool) {
    let c = ctx(); if c.is_null() { return; } let c = &mut *c; if !c.in_call { return; }
    seen(c, a, store);
    point(c);
}
#[no_mangle] pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ---------------------------------------------------------------- simulated heap
const ARENA: usize = 0x5f00_0000_0000;
const ARENA_SZ: usize = 6 << 30;
const STACKS: usize = 0x5d00_0000_0000;
/// Apart; a thread has the two megabytes the standard library gives it.
const STACK_SZ: usize = 16 << 20;
const STACK_LEN: usize = 2 << 20;
static mut BUMP: usize = 0;
static mut FREE: [usize; 48] = [0; 48];
pub static mut LIVE: i64 = 0;
static ALOCK: AtomicBool = AtomicBool::new(false);
pub fn arena_init(off: usize) -> bool {
    unsafe {
        let r = raw6(9, ARENA as i64, ARENA_SZ as i64, 3, 0x4022 | 0x100000, -1, 0); // PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        BUMP = ARENA + 64 + off * 16;
        r == ARENA as i64
    }
}
fn class(l: &Layout) -> usize { let s = l.size().max(l.align()).max(16); (usize::BITS - (s - 1).leading_zeros()) as usize }
struct Lk;
impl Lk { fn get() -> Lk { while ALOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); } Lk } }
impl Drop for Lk { fn drop(&mut self) { ALOCK.store(false, Release); } }
unsafe fn arena_alloc(l: &Layout) -> *mut u8 {
    let _k = Lk::get();
    let k = class(l);
    if k >= 34 { return std::ptr::null_mut(); }
    let sz = 1usize << k;
    let p = if FREE[k] != 0 { let p = FREE[k]; FREE[k] = *(p as *const usize); p } else {
        let al = l.align().max(16);
        let p = (BUMP + al - 1) & !(al - 1);
        if p + sz > ARENA + ARENA_SZ { return std::ptr::null_mut(); }
        BUMP = p + sz; p };
    LIVE += l.size() as i64;
    if POOLING { mark(p, sz, 1); }
    p as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: &Layout) {
    let _k = Lk::get();
    let k = class(l);
    let n = l.size().min(512);
    if POOLING || (p as usize) < ARENA + POOLED { mark(p as usize, 1 << k, 0); }
    std::ptr::write_bytes(p, 0xD7, n);
    *(p as *mut usize) = FREE[k];
    FREE[k] = p as usize;
    LIVE -= l.size() as i64;
}
#[inline(always)]
fn in_arena(p: *mut u8) -> bool { (p as usize).wrapping_sub(ARENA) < ARENA_SZ }
pub struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = ctx();
        if c.is_null() || !(*c).in_call { return System.alloc(l); }
        let c = &mut *c;
        c.allocs += 1;
        if c.allocs == c.oom_at {
            c.oom_at = NEVER; c.oom_fired = true;
            c.in_call = false;
            count("fault_alloc_failure");
            let s = sim();
            s.resolved.push(format!("oom {} {} {}", c.id, c.op, c.allocs));
            fold(0x00a1 ^ c.allocs);
            raw_write(s.report_fd, b"oomfired\n");
            c.in_call = true;
            return std::ptr::null_mut();
        }
        point(c);
        arena_alloc(&l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            let c = ctx();
            if !c.is_null() && (*c).in_call { point(&mut *c); }
            arena_free(p, &l);
        } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let c = ctx();
        if in_arena(p) || (!c.is_null() && (*c).in_call) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = if !c.is_null() && (*c).in_call { self.alloc(nl) } else { arena_alloc(&nl) };
            if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
            q
        } else { System.realloc(p, l, n) }
    }
}

// ---------------------------------------------------------------- interposed libc functions
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let t = ctx();
    if n == 202 && !t.is_null() && ACTIVE.load(Relaxed) { return sim_futex(&mut *t, a, b, c, d); }
    if n == 318 && ACTIVE.load(Relaxed) { return getrandom(a as *mut u8, b as usize, c as u32) as i64; }
    ret(raw6(n, a, b, c, d, e, f))
}
unsafe fn sim_futex(c: &mut Task, addr: i64, op: i64, val: i64, to: i64) -> i64 {
    let ic = c.in_call;
    c.in_call = false;
    let cmd = op & 0x7f;
    let s = sim();
    let r = match cmd {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 { set_errno(libc::EAGAIN); -1 } else {
                c.st = St::Futex; c.waddr = addr as usize; c.woken = false;
                c.wdl = if to == 0 { NEVER } else {
                    let ts = to as *const i64;
                    let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                    if cmd == 0 { s.now.saturating_add(ns) } else if op & 256 != 0 { ns.saturating_sub(s.real_base) } else { ns }
                };
                count("futex_waits");
                c.ev += 1;
                hand_over(c, false, K_BLOCK);
                if c.woken { 0 } else { set_errno(libc::ETIMEDOUT); -1 }
            }
        }
        1 | 10 => {
            let mut n = 0;
            for i in 0..s.n {
                if n >= val { break; }
                let t = task(i);
                if t.st == St::Futex && t.waddr == addr as usize { t.st = St::Ready; t.woken = true; n += 1; }
            }
            n
        }
        _ => { set_errno(libc::ENOSYS); -1 }
    };
    c.in_call = ic;
    r
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if !ACTIVE.load(Relaxed) { return ret(raw6(318, b as i64, n as i64, f as i64, 0, 0, 0)) as isize; }
    let s = sim();
    let c = ctx();
    if !c.is_null() && (*c).in_call { count("entropy_requests"); }
    for i in 0..n { *b.add(i) = s.entropy.u() as u8; }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return ret(raw6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32; }
    let s = sim();
    let ic = (*c).in_call; (*c).in_call = false;
    if ic { count("clock_readings"); }
    s.now += 50;
    let mut v = s.now;
    if s.clock_jumpy && s.env_rng.pct(30) { s.now += s.env_rng.logu(1 << 45); v = s.now; count("clock_jumps"); }
    if id == 0 || id == 5 {
        v = v.wrapping_add(s.real_base);
        if s.clock_jumpy && s.env_rng.pct(30) { s.real_base = 1_000_000_000 * s.env_rng.below(4_000_000_000); }
    }
    (*c).in_call = ic;
    *ts = (v / 1_000_000_000) as i64; *ts.add(1) = (v % 1_000_000_000) as i64;
    0
}
unsafe fn sim_sleep(c: &mut Task, dl: u64) { c.st = St::Sleep; c.wdl = dl; c.ev += 1; count_out(c, "sleeps"); hand_over(c, false, K_BLOCK); }
unsafe fn count_out(c: &mut Task, k: &'static str) { let ic = c.in_call; c.in_call = false; count(k); c.in_call = ic; }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const i64, m: *mut i64) -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return ret(raw6(35, r as i64, m as i64, 0, 0, 0, 0)) as i32; }
    let d = (*r as u64).saturating_mul(1_000_000_000).saturating_add(*r.add(1) as u64);
    sim_sleep(&mut *c, sim().now.saturating_add(d)); 0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, r: *const i64, m: *mut i64) -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return -raw6(230, id as i64, fl as i64, r as i64, m as i64, 0, 0) as i32; }
    let d = (*r as u64).saturating_mul(1_000_000_000).saturating_add(*r.add(1) as u64);
    let dl = if fl & 1 != 0 { d } else { sim().now.saturating_add(d) };
    sim_sleep(&mut *c, dl); 0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32; }
    let c = &mut *c; c.ev += 1; 
    if c.ev >= c.next { slow(c); }
    hand_over(c, true, K_BLOCK); 0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, sz: usize, mask: *mut u8) -> i32 {
    if ctx().is_null() || !ACTIVE.load(Relaxed) { let r = raw6(204, pid as i64, sz as i64, mask as i64, 0, 0, 0); return if r < 0 { set_errno(-r as i32); -1 } else { 0 }; }
    std::ptr::write_bytes(mask, 0, sz);
    for i in 0..sim().cpus { *mask.add(i / 8) |= 1 << (i % 8); }
    let c = &mut *ctx(); count_out(c, "cpu_count_readings");
    0
}
/// A write that reports that not a byte was taken, and no error either.
pub const TAKES_NOTHING: i64 = -100_000;
unsafe fn sim_out(c: &mut Task, fd: i32, len: usize) -> isize {
    if fd != 1 { return len as isize; }
    let ic = c.in_call; c.in_call = false;
    let s = sim();
    let i = s.out_n; s.out_n += 1;
    let act = s.out_plan.iter().find(|p| p.0 == i).map(|p| p.1).unwrap_or(if i >= s.out_tail_from { s.out_tail } else { 0 });
    count("stdout_writes");
    fold(0x0u64 ^ (act as u64).wrapping_mul(77) ^ i);
    let r = if act == 0 || len == 0 { len as isize } else if act > 0 {
        let n = (act as usize).min(len);
        if n < len { count("fault_short_write"); }
        n as isize
    } else if act == TAKES_NOTHING {
        count("fault_takes_nothing");
        0
    } else {
        count(match -act as i32 { libc::EPIPE => "fault_EPIPE", libc::ENOSPC => "fault_ENOSPC", libc::EIO => "fault_EIO", libc::EAGAIN => "fault_EAGAIN",
            libc::EINTR => "fault_EINTR", libc::EBADF => "fault_EBADF", _ => "fault_other_errno" });
        set_errno(-act as i32); -1
    };
    c.in_call = ic;
    let e = *libc::__errno_location();
    if ic { c.ev += 1; if c.ev >= c.next { slow(c); } }
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return ret(raw6(1, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize; }
    sim_out(&mut *c, fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) { return ret(raw6(20, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize; }
    let mut len = 0; for i in 0..n { len += (*iov.offset(i as isize)).iov_len; }
    sim_out(&mut *c, fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) || !(*c).in_call { return raw6(39, 0, 0, 0, 0, 0, 0) as i32; }
    count_out(&mut *c, "process_id_readings");
    sim().pid
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) || !(*c).in_call { let mut t = [0u8; 256]; return (raw6(16, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as i32; }
    count_out(&mut *c, "terminal_readings");
    let s = sim();
    (s.env_random && mix(s.pid as u64 ^ fd as u64) & 1 == 1) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    let c = ctx();
    let dir: &[u8] = if c.is_null() || !ACTIVE.load(Relaxed) || !(*c).in_call { let r = raw6(79, b as i64, n as i64, 0, 0, 0, 0); return if r < 0 { set_errno(-r as i32); std::ptr::null_mut() } else { b }; }
        else { count_out(&mut *c, "directory_readings"); if sim().env_random { [&b"/home/u\0"[..], b"/\0", b"/var/tmp/x\0"][sim().pid as usize % 3] } else { b"/work\0" } };
    if n < dir.len() || b.is_null() { set_errno(34); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(dir.as_ptr(), b, dir.len());
    b
}
// Files: in the reference environment there are none; elsewhere some, with odd contents. None can be written.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) || !(*c).in_call { return ret(raw6(257, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32; }
    count_out(&mut *c, "file_openings");
    if flags & 0x43 != 0 { set_errno(libc::EROFS); return -1; }
    let h = there(path);
    if h & 1 == 0 { set_errno(libc::ENOENT); return -1; }
    let f = raw6(319, b"f\0".as_ptr() as i64, 1, 0, 0, 0, 0);
    let t: &[u8] = [&b"1\n"[..], b"", b"0\n", b"de_DE.UTF-8\n", b"limit=7\n", b"true\n"][(h / 2 % 6) as usize];
    raw6(18, f, t.as_ptr() as i64, t.len() as i64, 0, 0, 0);
    f as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut libc::c_void) -> i32 {
    let c = ctx();
    let mut path = path;
    if !c.is_null() && ACTIVE.load(Relaxed) && (*c).in_call && !path.is_null() && *path != 0 {
        count_out(&mut *c, "file_openings");
        if there(path) & 1 == 0 { set_errno(libc::ENOENT); return -1; }
        path = b"/\0".as_ptr();
    }
    ret(raw6(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const u8, b: *mut u8, n: usize) -> isize {
    let c = ctx();
    if c.is_null() || !ACTIVE.load(Relaxed) || !(*c).in_call { return ret(raw6(89, path as i64, b as i64, n as i64, 0, 0, 0)) as isize; }
    count_out(&mut *c, "file_openings");
    let t: &[u8] = if sim().env_random { [&b"/usr/bin/count"[..], b"/bin/ec", b"/home/u/a.out (deleted)"][sim().pid as usize % 3] } else { b"/work/ec" };
    let m = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), b, m);
    m as isize
}
unsafe fn there(path: *const u8) -> u64 {
    if !sim().env_random { return 0; }
    std::slice::from_raw_parts(path, libc::strlen(path as *const libc::c_char)).iter().fold(sim().env_rng.0, |a, &b| mix(a ^ b as u64))
}
pub static mut ARGV: *mut *const u8 = std::ptr::null_mut();
/// Other environment variables and program arguments, in a process that is about to run a scenario.
pub fn other_environment(mut r: Rng) {
    unsafe {
        let names = ["HOME=/home/u", "LANG=de_DE.UTF-8", "LC_ALL=C", "TERM=dumb", "NO_COLOR=1", "PATH=/bin", "DEBUG=1", "VERBOSE=2", "CI=true", "TZ=Asia/Tokyo", "USER=x", "ECC_CACHE=0"];
        let mut v: Vec<*const u8> = vec![];
        for _ in 0..r.below(9) { let mut s = r.pick(&names).as_bytes().to_vec(); if r.pct(20) { s.push(b'0' + r.below(10) as u8); } s.push(0); v.push(Box::leak(s.into_boxed_slice()).as_ptr()); }
        v.push(std::ptr::null());
        environ = Box::leak(v.into_boxed_slice()).as_ptr();
        if !ARGV.is_null() && !(*ARGV).is_null() { *ARGV = [b"ec\0".as_ptr(), b"/usr/bin/count\0".as_ptr(), b"\0".as_ptr()][r.below(3) as usize]; if r.pct(50) { *ARGV.add(1) = if r.pct(50) { b"--fast\0".as_ptr() } else { b"7\0".as_ptr() }; } }
    }
}
extern "C" { static mut environ: *const *const u8; fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, at: *mut libc::c_void, n: usize) -> i32; }
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let c = ctx();
    let n = libc::strlen(name as *const libc::c_char);
    if !c.is_null() && (*c).in_call && ACTIVE.load(Relaxed) {
        let c = &mut *c;
        c.in_call = false;
        count("env_readings");
        let s = sim();
        let nm = std::slice::from_raw_parts(name, n);
        let r = if nm.starts_with(b"RUST_") || !s.env_random { std::ptr::null() } else {
            let h = nm.iter().fold(s.env_rng.0, |a, &b| mix(a ^ b as u64));
            [std::ptr::null(), b"\0".as_ptr(), b"0\0".as_ptr(), b"1\0".as_ptr(), b"2\0".as_ptr(), b"true\0".as_ptr(), b"off\0".as_ptr(), b"de_DE.UTF-8\0".as_ptr(), b"1000000\0".as_ptr(), b"x\0".as_ptr()][(h % 10) as usize]
        };
        c.in_call = true;
        return r;
    }
    if environ.is_null() { return std::ptr::null(); }
    let mut e = environ;
    while !(*e).is_null() {
        if libc::strncmp(*e as *const libc::c_char, name as *const libc::c_char, n) == 0 && *(*e).add(n) == b'=' { return (*e).add(n + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
// threads started by the code under test become tasks
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut u64, *const libc::c_void, Start, *mut libc::c_void) -> i32;
struct Tramp { f: Start, arg: *mut libc::c_void, id: usize }
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Tramp);
        let c = &mut TASKS[b.id];
        std::arch::asm!("mov {}, fs:[0]", out(reg) c.fs);
        CTX.with(|x| x.set(c));
        wait_self(c);
        let (f, arg) = (b.f, b.arg);
        drop(b);
        c.in_call = true;
        refresh(c);
        let r = f(arg);
        c.in_call = false;
        let k = (c.id, c.op, END as u64, K_END);
        c.st = St::Done;
        for i in 0..sim().n { let t = task(i); if t.st == St::Join && t.join_on == c.id { t.st = St::Ready; } }
        CTX.with(|x| x.set(std::ptr::null_mut()));
        match choose(k, false) { Some(to) => { sim().cur = to; wake(to); } None => idle() }
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const libc::c_void, f: Start, arg: *mut libc::c_void) -> i32 {
    static mut REAL: Option<Create> = None;
    if REAL.is_none() { REAL = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()))); }
    let real = REAL.unwrap();
    let c = ctx();
    if !ACTIVE.load(Relaxed) { return real(t, attr, f, arg); }
    // every thread of a run gets a stack at an address the run decides
    let mut own: libc::pthread_attr_t = std::mem::zeroed();
    let attr = {
        let s = sim();
        let at = STACKS + s.stack_off * 4096 + s.stack_n * STACK_SZ;
        s.stack_n += 1;
        if s.stack_n > 1000 || raw6(9, at as i64, STACK_LEN as i64, 3, 0x4022 | 0x100000, -1, 0) != at as i64 { attr } else {
            libc::pthread_attr_init(&mut own);
            pthread_attr_setstack(&mut own, at as *mut libc::c_void, STACK_LEN);
            &own as *const libc::pthread_attr_t as *const libc::c_void
        }
    };
    if c.is_null() { return real(t, attr, f, arg); }
    let c = &mut *c;
    let ic = c.in_call; c.in_call = false;
    let s = sim();
    if s.n >= MAXT { c.in_call = ic; return libc::EAGAIN; }
    count("threads_started_by_code");
    let id = s.n;
    init_task(id);
    let n = task(id); n.spawned = true; n.op = 1_000_000 + id as u32; n.budget = c.budget;
    let b = Box::into_raw(Box::new(Tramp { f, arg, id }));
    let r = real(t, attr, tramp, b as *mut libc::c_void);
    if r == 0 { n.pthread = *t; s.n += 1; }
    c.in_call = ic;
    if ic { point(c); }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, out: *mut *mut libc::c_void) -> i32 {
    type J = unsafe extern "C" fn(u64, *mut *mut libc::c_void) -> i32;
    static mut REAL: Option<J> = None;
    if REAL.is_none() { REAL = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()))); }
    let c = ctx();
    if !c.is_null() && ACTIVE.load(Relaxed) {
        let c = &mut *c;
        let s = sim();
        if let Some(i) = (0..s.n).rev().find(|&i| task(i).spawned && task(i).pthread == t) {
            while task(i).st != St::Done { c.st = St::Join; c.join_on = i; c.wdl = NEVER; c.ev += 1; hand_over(c, false, K_BLOCK); }
        }
    }
    REAL.unwrap()(t, out)
}

// ---------------------------------------------------------------- harness interface
pub fn init_task(i: usize) {
    let t = task(i);
    *t = Task { id: i, ..T0 };
    t.st = St::Ready;
    t.prio = 500;
}
/// Runs library code: instrumented, on the simulated heap, preemptible.
pub fn call<R>(f: impl FnOnce() -> R) -> R {
    let c = me();
    c.in_call = true;
    refresh(c);
    if c.ev >= c.next { slow(c); }
    let r = f();
    c.in_call = false;
    r
}
/// Runs harness code from inside a library call (a sink).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let c = ctx();
    if c.is_null() { return f(); }
    let c = unsafe { &mut *c };
    let ic = c.in_call; c.in_call = false;
    let r = f();
    c.in_call = ic;
    r
}
/// A point at which the simulator may switch, from inside a sink.
pub fn sink_point() {
    let c = ctx();
    if c.is_null() { return; }
    let c = unsafe { &mut *c };
    c.ev += 1;
    let s = sim();
    if c.ev >= c.next { slow(c); }
    else if !s.replay && s.rng.pct(20) { let ic = c.in_call; c.in_call = false; hand_over(c, true, K_PREEMPT); c.in_call = ic; }
}
pub fn begin_op(op: u32, budget: u64) {
    let c = me();
    c.op = op; c.ev = 0; c.allocs = 0; c.oom_at = NEVER; c.oom_fired = false; c.stall_at = NEVER; c.oom_novel = false; c.stall_novel = false;
    c.budget = budget; c.in_call = false;
    let s = sim();
    let p = match s.policy { Policy::Boundary(p) => p, Policy::Slice(_) => 30, Policy::Guard(_) => 30, Policy::Prio(_) => 40 };
    if s.replay {
        let k = (c.id, op, 0, 0);
        if s.plan.contains_key(&k) { hand_over(c, true, K_BEGIN); } else { refresh(c); }
    } else if s.rng.pct(p) { hand_over(c, true, K_BEGIN); } else { refresh(c); }
}
pub fn end_op() {
    let c = me();
    c.in_call = false; c.oom_at = NEVER; c.stall_at = NEVER; c.budget = NEVER; c.oom_novel = false; c.stall_novel = false;
    sim().ev_total += c.ev;
    limits(c);
}
/// Body wrapper of a harness task thread.
pub fn task_thread(id: usize, f: impl FnOnce() -> Option<Box<dyn FnOnce()>>) {
    unsafe {
        let c = &mut TASKS[id];
        std::arch::asm!("mov {}, fs:[0]", out(reg) c.fs);
        CTX.with(|x| x.set(c));
        wait_self(c);
        LATE.with(|l| l.0.set(None));
        if let Some(late) = f() { count("calls_at_thread_exit"); LATE.with(|l| l.0.set(Some((id, late)))); return; }
        finish(id);
    }
}
/// What a task still does while its thread ends. It is registered before any other thread-local data, so it comes last.
struct Late(Cell<Option<(usize, Box<dyn FnOnce()>)>>);
impl Drop for Late { fn drop(&mut self) { if let Some((id, f)) = self.0.take() { f(); finish(id); } } }
thread_local! { static LATE: Late = Late(Cell::new(None)); }
fn finish(id: usize) {
    unsafe {
        let c = &mut TASKS[id];
        c.in_call = false;
        c.op = END; c.ev = 0;
        c.st = St::Done;
        CTX.with(|x| x.set(std::ptr::null_mut()));
        let s = sim();
        s.cur = id;
        s.ctl.store(1, Release);
        fwake(&s.ctl);
    }
}
/// Controller: runs the given task threads until all are done or suspended forever.
pub fn run_tasks(mut handles: Vec<(usize, Option<std::thread::JoinHandle<()>>)>) {
    let s = sim();
    s.finished = false;
    s.wave += 1;
    let mut from = (MAXT, END, s.wave, K_END);
    loop {
        match choose(from, false) {
            None => { idle(); }
            Some(to) => {
                let default = (0..s.n).find(|&i| task(i).st == St::Ready).unwrap();
                if to != default { s.decisions.push((from.0, from.1, from.2, from.3, to)); fold(to as u64 + 0x1000 + from.0 as u64 * 64); }
                s.cur = to;
                unsafe { wake(to); }
            }
        }
        loop { if s.ctl.swap(0, Acquire) == 1 { break; } unsafe { fwait(&s.ctl, 0); } }
        if s.finished { break; }
        // the task s.cur is done
        let id = s.cur;
        for h in handles.iter_mut() { if h.0 == id { if let Some(j) = h.1.take() { let _ = j.join(); } } }
        from = (id, END, s.wave, K_END);
    }
}
pub fn report(lines: &str) { let fd = sim().report_fd; raw_write(fd, lines.as_bytes()); }
pub fn summary() -> String {
    let s = sim();
    let mut o = String::new();
    unsafe { for (k, v) in [("static_data_touched", TOUCHED[1]), ("thread_local_data_touched", TOUCHED[0]), ("data_kept_in_operands_touched", TOUCHED[2])] { if v > 0 { o += &format!("stat {} {}\n", k, v); } } }
    for (k, v) in &s.stats { o += &format!("stat {} {}\n", k, v); }
    o += &format!("hash {:016x}\nswitches {}\nevents {}\nsimtime {}\n", s.hash, s.switches, s.ev_total, s.now);
    for d in &s.decisions { o += &format!("dec {} {} {} {} {}\n", d.0, d.1, d.2, d.3, d.4); }
    for r in &s.resolved { o += &format!("res {}\n", r); }
    for l in &s.log { o += &format!("log {}\n", l.replace('\n', " ")); }
    let n = NGUARDS.load(Relaxed) as usize;
    o += "cov ";
    for b in 0..(n / 4 + 1) { let mut v = 0; for k in 0..4 { let g = b * 4 + k; if g <= n && g < MAXG && unsafe { GCNT[g] } > 0 { v |= 1 << k; } } o.push(std::char::from_digit(v, 16).unwrap()); }
    o += "\n";
    o
}
pub fn violation(kind: &str, detail: &str) -> ! {
    let mut d: String = detail.replace('\n', " ");
    if d.len() > 1500 { let mut k = 1500; while !d.is_char_boundary(k) { k -= 1; } d.truncate(k); d += "..."; }
    fold_str(kind); fold_str(&d);
    sim().log.push(format!("VIOLATION {} {}", kind, d));
    let o = format!("violation {} {}\n{}done\n", kind, d, summary());
    report(&o);
    exit_now(0)
}

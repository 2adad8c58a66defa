//! Executes scenarios: each in a process of its own, forked from a pristine single-threaded parent.
use crate::obj::World;
use crate::ops::op;
use crate::rt::{self, *};
use crate::scen::*;
use crate::sink;
use crate::val::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

/// What an operation does when it is the only call ever made in a process.
#[derive(Clone, Debug, Default)]
pub struct Solo { pub out: String, pub hang: bool, pub blocked: bool, pub crash: bool, pub sig: i32, pub ev: u64, pub allocs: u64, pub narr: u64, pub rare: Vec<(u32, u32, u64, u64)>, pub seen: Vec<u8>, pub touch: u64 }
impl Solo {
    /// The call ended the process (and no kill from outside did).
    pub fn died(&self) -> bool { self.crash && matches!(self.sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) }
    pub fn ok(&self) -> bool { !self.hang && !self.crash && !self.blocked } pub fn refused(&self) -> bool { self.out == "!" }
}

pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> std::ops::Deref for Shared<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }

pub const SOLO_CAP: u64 = 60_000_000;

/// Runs library code, catching a refusal.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let r = catch_unwind(AssertUnwindSafe(|| rt::call(f)));
    rt::me().in_call = false;
    match r { Ok(v) => Ok(v), Err(p) => { drop(p); Err(()) } }
}
/// Performs one catalogued operation; the text of its result, or "!" when it refused.
pub fn perform(text: &str, pool: &[Option<A>]) -> String {
    let mut w = text.split(' ');
    let name = w.next().unwrap();
    let lits: Vec<Lit> = w.map(parse).collect();
    if name == "make" || name == "text" {
        return match lib(|| make(&lits[0])) {
            Err(()) => "!".into(),
            Ok(a) => if name == "make" { e_arg(&a) } else { match lib(|| sink::text(&a)) { Ok(s) => s, Err(()) => "!".into() } },
        };
    }
    let def = op(name);
    let r = lib(|| {
        let own: Vec<Option<A>> = lits.iter().map(|l| if let Lit::Ref(_) = l { None } else { Some(make(l)) }).collect();
        let args: Vec<&A> = lits.iter().zip(own.iter()).map(|(l, o)| match l { Lit::Ref(k) => pool[*k].as_ref().unwrap(), _ => o.as_ref().unwrap() }).collect();
        (def.f)(&args)
    });
    match r {
        Err(()) => "!".into(),
        Ok(v) => {
            let mut s = v.enc();
            match lib(|| v.text()) {
                Ok(Some(t)) => { s += " | "; s += &t; drop_in(t); }
                Ok(None) => {}
                Err(()) => s += " | !",
            }
            let _ = lib(move || drop(v));
            s
        }
    }
}
/// The same, by a destructor while a panic of the caller's own unwinds its thread.
fn unwinding(text: &str, pool: &[Option<A>]) -> String {
    struct U<'a>(&'a str, &'a [Option<A>], &'a mut String);
    impl Drop for U<'_> { fn drop(&mut self) { *self.2 = perform(self.0, self.1); } }
    count("calls_while_unwinding");
    let mut out = String::new();
    let _ = catch_unwind(AssertUnwindSafe(|| { let _u = U(text, pool, &mut out); std::panic::resume_unwind(Box::new(())); }));
    out
}
fn drop_in(t: String) { let _ = lib(move || drop(t)); }
fn hash_of(x: &str) -> u64 { x.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
/// How often, and with which variations, an operation is made: "*N call" is the same call N times over;
/// "~N.S call" is the call with one literal varied N ways, all of them made twice in different orders.
#[derive(Clone, Copy, PartialEq)]
pub enum Many { Once, Same(u64), Sweep(u64, u64) }
/// A "$" in front: made while the thread ends, after its other thread-local data are gone; a "^": made by a destructor while the thread unwinds.
pub fn split_many(text: &str) -> (Many, &str) {
    let text = text.strip_prefix(['$', '^']).unwrap_or(text);
    let c = match text.as_bytes() { [c @ (b'*' | b'~'), d, ..] if d.is_ascii_digit() => *c as char, _ => return (Many::Once, text) };
    let (n, rest) = text[1..].split_once(' ').unwrap();
    if c == '*' { return (Many::Same(n.parse().unwrap()), rest); }
    let (n, s) = n.split_once('.').unwrap();
    (Many::Sweep(n.parse().unwrap(), s.parse().unwrap()), rest)
}
/// The i-th variation of a call: one literal moved by i steps, chosen by the seed.
pub fn vary(text: &str, seed: u64, i: u64) -> String {
    if i == 0 { return text.to_string(); }
    let mut w: Vec<String> = text.split(' ').map(|s| s.to_string()).collect();
    let c = sweepable(text);
    if c.is_empty() { return text.to_string(); }
    let k = c[(seed % c.len() as u64) as usize];
    // now and then a second literal moves with it, coming back every few steps
    let both = seed % 5 == 0 || w[0] == "int.inverse";
    if both {
        let period = [1u64, 2, 4, 8, 16, 32, 64, 128, 256, 512, 256, 3, 10, 100][(seed / 5 % 14) as usize];
        let m = (1..w.len()).find(|&m| letter_at(&w[0], m) == 'M');
        let k2 = if w[0] == "int.inverse" { 1 } else { c[((seed / 11) % c.len() as u64) as usize] };
        // the modulus never comes back, or does so now and then
        let mi = match seed / 50 % 4 { 0 => i, 1 => i, 2 => i % 3, _ => i / 2 };
        if let Some(m) = m { if !c.contains(&m) && w[0] != "int.inverse" { return text.to_string(); } w[m] = format!("n={}", nth_prime(if w[0] == "int.inverse" { 200 + mi % 3800 } else { mi + seed % 50 })); }
        else if k != k2 { step(&mut w, k, i, seed); }
        if m != Some(k2) {
            let j = i % period;
            if w[0] == "int.inverse" { w[1] = format!("n={}", 1 + (seed / 100 + j) % 1000); } else { step(&mut w, k2, j, seed); }
        }
        return w.join(" ");
    }
    step(&mut w, k, i, seed);
    w.join(" ")
}
/// One literal moved by i steps.
fn step(w: &mut [String], k: usize, i: u64, seed: u64) {
    let step: u64 = [1u64, 1, 1, 1 << 32, 64, 97, 1, 256][(seed / 7 % 8) as usize];
    let d = num_bigint::BigInt::from(i) * step;
    let some = |n: num_bigint::BigInt| if n == num_bigint::BigInt::from(0) { num_bigint::BigInt::from(7) } else { n };
    let letter = letter_at(&w[0], k);
    w[k] = match parse(&w[k]) {
        Lit::Pt(_) => {
            // the other points of the curve
            if let Lit::C(c) = parse(&w[1]) {
                let p: i64 = c[2].to_string().parse().unwrap();
                let all = crate::gen::points_of(&c[0], &c[1], p);
                if all.is_empty() { return; }
                let (x, y) = all[(i + seed) as usize % all.len()];
                format!("P={},{},1", x, y)
            } else { unreachable!() }
        }
        Lit::V(_) => format!("v={}.{}", i / 50 * (seed % 3), i % 50 + seed % 2 * i),
        Lit::N(_) if letter == 'M' => format!("n={}", nth_prime(i + seed % 50)),
        Lit::N(n) => format!("n={}", n + d),
        Lit::T(mut t) => { t.c = some(t.c + d); format!("t={}", show_td(&t)) }
        Lit::P(mut v) => { let j = (seed / 64) as usize % v.len(); v[j].c = some(&v[j].c + d); show_pol(&v) }
        _ => unreachable!(),
    };
}
fn letter_at(name: &str, k: usize) -> char {
    let mut at = 1;
    for ch in op(name).s.chars() { let n = if ch == 'C' { 3 } else { 1 }; if k < at + n { return ch; } at += n; }
    ' '
}
/// primes above 50, in order
fn nth_prime(i: u64) -> i64 {
    static P: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    P.get_or_init(|| { let n = 40_000; let mut s = vec![true; n]; let mut v = vec![]; for i in 2..n { if s[i] { if i > 50 { v.push(i as i64); } let mut j = i * i; while j < n { s[j] = false; j += i; } } } v })[i as usize % 4100]
}
/// The literals of a call that can take any value without making the call invalid or costly.
pub fn sweepable(text: &str) -> Vec<usize> {
    let w: Vec<&str> = text.split(' ').collect();
    let d = op(w[0]);
    if matches!(d.n, "poly.div_any") { return vec![]; }
    // powers with an exponent of any size are for 0, 1 and -1 only
    if d.s == "Ie" && !(w[2].starts_with("n=") && w[2].len() < 5) { return vec![]; }
    let mut at = 1;
    let mut o = vec![];
    for ch in d.s.chars() {
        match ch {
            'I' if d.n == "int.inverse" => at += 1,
            'I' | 'N' | 'T' | 't' | 'X' | 'Q' | 'Z' => { if w[at].starts_with("n=") || w[at].starts_with("t=") || w[at].starts_with("p=") && matches!(parse(w[at]), Lit::P(v) if !v.is_empty()) { o.push(at); } at += 1; }
            'C' => { o.extend([at, at + 1]); at += 3; }
            'G' => { if w[at].starts_with("P=") && w[1].starts_with("C=") { o.push(at); } at += 1; }
            'M' => { if d.n == "int.inverse" { if w[at].starts_with("n=") { return vec![at]; } } if w[at].starts_with("n=") { o.push(at); } at += 1; }
            'V' => { if w[at].starts_with("v=") { o.push(at); } at += 1; }
            _ => at += 1,
        }
    }
    o
}
/// The operation's text with shared operands written out.
pub fn expand(text: &str, pool: &[String]) -> String {
    text.split(' ').map(|w| if let Some(k) = w.strip_prefix('@') { pool[k.parse::<usize>().unwrap()].clone() } else { w.to_string() }).collect::<Vec<_>>().join(" ")
}
pub fn solo_key(text: &str, pool: &[String]) -> String {
    let e = expand(split_many(text).1, pool);
    if let Some(r) = e.strip_prefix("sink ") { format!("text {}", r.split(' ').next().unwrap()) } else { e }
}

// ---------------------------------------------------------------- forking
pub struct Report { pub viol: Option<(String, String)>, pub done: bool, pub lines: Vec<String>, pub sig: i32, pub code: i32 }
impl Report {
    pub fn get(&self, k: &str) -> u64 { self.lines.iter().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')).map(|r| r.parse().unwrap_or(0))).unwrap_or(0) }
    pub fn hash(&self) -> String { self.lines.iter().find_map(|l| l.strip_prefix("hash ")).unwrap_or("").to_string() }
    pub fn stats(&self) -> Vec<(String, u64)> { self.lines.iter().filter_map(|l| l.strip_prefix("stat ")).map(|r| { let (a, b) = r.split_once(' ').unwrap(); (a.to_string(), b.parse().unwrap()) }).collect() }
    pub fn stat(&self, k: &str) -> u64 { self.stats().iter().find(|s| s.0 == k).map(|s| s.1).unwrap_or(0) }
    pub fn decisions(&self) -> Vec<(usize, u32, u64, u32, usize)> {
        self.lines.iter().filter_map(|l| l.strip_prefix("dec ")).map(|r| { let w: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); (w[0] as usize, w[1] as u32, w[2], w[3] as u32, w[4] as usize) }).collect()
    }
    pub fn resolved(&self) -> Vec<(String, usize, u32, u64)> {
        self.lines.iter().filter_map(|l| l.strip_prefix("res ")).map(|r| { let w: Vec<&str> = r.split(' ').collect(); (w[0].to_string(), w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap()) }).collect()
    }
    pub fn cov(&self) -> &str { self.lines.iter().find_map(|l| l.strip_prefix("cov ")).unwrap_or("") }
}
pub fn in_fork(secs: u32, f: impl FnOnce(i32)) -> Report {
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe2(p.as_mut_ptr(), 0) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(secs);
            f(p[1]);
            exit_now(0);
        }
        libc::close(p[1]);
        let mut data: Vec<u8> = vec![];
        let mut buf = vec![0u8; 65536];
        loop {
            let r = libc::read(p[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if r < 0 && *libc::__errno_location() == libc::EINTR { continue; }
            if r <= 0 { break; }
            data.extend_from_slice(&buf[..r as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let s = String::from_utf8_lossy(&data);
        let lines: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        let viol = lines.iter().find_map(|l| l.strip_prefix("violation ")).map(|r| { let (a, b) = r.split_once(' ').unwrap_or((r, "")); (a.to_string(), b.to_string()) });
        let done = lines.last().map_or(false, |l| l == "done");
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 0 };
        Report { viol, done, lines, sig, code }
    }
}
fn set_sim(env: &Env, seed: u64, fd: i32) -> Box<Sim> {
    let mut s = new_sim(seed);
    s.report_fd = fd;
    s.entropy = Rng(mix(env.entropy));
    s.env_rng = Rng(mix(env.seed ^ 0xe0e0));
    s.cpus = env.cpus; s.clock_jumpy = env.jumpy; s.env_random = env.envrand; s.stack_off = env.stack;
    if env.seed != 0 { s.pid = 2 + (env.seed % 4_000_000) as i32; }
    if env.seed != 0 { s.now = 1 + env.seed % 1_000_000_000_000; s.real_base = 1_000_000_000 * (env.seed % 3_000_000_000); }
    s
}
fn spawn(id: usize, f: impl FnOnce() + 'static) -> (usize, Option<std::thread::JoinHandle<()>>) { spawn_late(id, move || { f(); None }) }
/// The task may return what it still has to do while its thread ends.
fn spawn_late(id: usize, f: impl FnOnce() -> Option<Box<dyn FnOnce()>> + 'static) -> (usize, Option<std::thread::JoinHandle<()>>) {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    impl<T> S<T> { fn take(self) -> T { self.0 } }
    let s = S(f);
    let mut t = std::thread::Builder::new();
    // in a random environment threads have names
    let s0 = sim();
    if s0.env_random { if let Some(n) = [None, Some("main"), Some("worker"), Some("pool-0-thread-1"), Some("tokio-runtime-worker"), Some("")][s0.env_rng.below(6) as usize] { t = t.name(n.to_string()); } }
    let h = t.spawn(move || { let f = s.take(); task_thread(id, f) }).expect("thread");
    (id, Some(h))
}
/// Asked before a call is said never to end.
pub fn solo_patient(text: &str) -> Solo { solo_with(text, 6_000_000_000, 150) }
fn solo_with(text: &str, cap: u64, secs: u32) -> Solo {
    let t = text.to_string();
    let r = in_fork(secs, |fd| {
        if !arena_init(0) { exit_now(9); }
        let mut s = set_sim(&Env::reference(), 1, fd);
        s.policy = Policy::Boundary(0);
        install(s);
        sim().n = 1;
        init_task(0);
        let h = spawn(0, move || {
            begin_op(1, cap);
            let out = perform(&t, &[]);
            let c = me();
            let (ev, al) = (c.ev, c.allocs);
            end_op();
            let mut o = format!("out {}\nev {}\nallocs {}\nnarr {}\n", out.replace('\n', " "), ev, al, sim().out_n);
            let n = NGUARDS.load(std::sync::atomic::Ordering::Relaxed) as usize;
            for g in 1..=n.min(MAXG - 1) { unsafe { if GCNT[g] > 0 && GCNT[g] <= 4 { o += &format!("rare {} {} {} {}\n", g, GCNT[g], GFEV[g], GFAL[g]); } } }
            report(&o);
        });
        run_tasks(vec![h]);
        report(&(summary() + "done\n"));
    });
    let mut s = Solo::default();
    if let Some((k, _)) = &r.viol { if k == "blocked" { s.blocked = true; } else { s.hang = true; s.ev = cap; } return s; }
    if r.sig == libc::SIGALRM { s.hang = true; s.ev = SOLO_CAP; return s; }
    if r.code == 9 { panic!("the simulated heap's address is taken"); }
    if !r.done { s.crash = true; s.sig = r.sig; return s; }
    s.out = r.lines.iter().find_map(|l| l.strip_prefix("out ")).unwrap_or("").to_string();
    s.ev = r.get("ev"); s.allocs = r.get("allocs"); s.narr = r.get("narr");
    for l in &r.lines { if let Some(x) = l.strip_prefix("rare ") { let w: Vec<u64> = x.split(' ').map(|v| v.parse().unwrap()).collect(); s.rare.push((w[0] as u32, w[1] as u32, w[2], w[3])); } }
    s.touch = touches(&r);
    s.seen = r.cov().bytes().collect();
    s
}
pub fn touches(r: &Report) -> u64 { r.stat("static_data_touched") + r.stat("thread_local_data_touched") + r.stat("data_kept_in_operands_touched") }
pub static mut PROF: [u64; 5] = [0; 5];
pub type Memo = HashMap<String, Rc<Solo>>;
pub fn solo(m: &mut Memo, key: &str) -> Rc<Solo> { solo_upto(m, key, SOLO_CAP) }
/// As `solo`, for a caller who has no use for a call that costs more than `cap` (it is then said to hang).
pub fn solo_upto(m: &mut Memo, key: &str, cap: u64) -> Rc<Solo> {
    if let Some(s) = m.get(key) { if !s.hang || s.ev >= cap { return s.clone(); } }
    // a large parent makes every fork slow: only what was costly to learn is kept for long
    if m.len() > 1200 { m.retain(|_, s| s.ev > 400_000); if m.len() > 900 { m.retain(|_, s| s.ev > 10_000_000); } }
    let t = std::time::Instant::now();
    let s = Rc::new(solo_with(key, cap.min(SOLO_CAP), 60));
    unsafe { PROF[0] += 1; PROF[1] += s.ev; PROF[2] += t.elapsed().as_micros() as u64; if s.hang { PROF[3] += 1; } if s.crash { PROF[4] += 1; } }
    if t.elapsed().as_millis() > 300 && std::env::var("ECSIM_PROF").is_ok() { eprintln!("solo {:?} ev {} hang {} {}", t.elapsed(), s.ev, s.hang, &key[..key.len().min(150)]); }
    m.insert(key.to_string(), s.clone());
    s
}
fn seen(s: &Solo, g: usize) -> bool {
    // two guards share nibbles of four; index g
    s.seen.get(g / 4).map_or(false, |&c| { let v = (c as char).to_digit(16).unwrap_or(0); v & (1 << (g % 4)) != 0 })
}
/// Runs a scenario in a fork. `memo` must hold the solo outcome of every operation in it.
pub fn run(sc: &Scenario, memo: &mut Memo, logging: bool) -> Report {
    let mut exp: HashMap<u32, Rc<Solo>> = HashMap::new();
    let mut some: HashMap<u32, Vec<(u64, Rc<Solo>)>> = HashMap::new();
    let mut pexp: Vec<Rc<Solo>> = vec![];
    let objects = !sc.head.is_empty();
    if !objects {
        for o in sc.ops() { let s = solo(memo, &solo_key(&o.text, &sc.pool)); 
            // of a sweep, two variations are made alone too
            if let (Many::Sweep(n, seed), t) = split_many(&o.text) {
                let v = [mix(seed) % n, n - 1].iter().map(|&i| (i, solo_upto(memo, &vary(t, seed, i), 20 * s.ev + 1_000_000))).filter(|x| x.1.ok()).collect();
                some.insert(o.id, v);
            }
            exp.insert(o.id, s);
        }
    }
    for p in &sc.pool { pexp.push(solo(memo, &format!("make {}", p))); }
    let sc2 = sc.clone();
    in_fork(150, move |fd| child(sc2, exp, some, pexp, logging, fd))
}
fn child(sc: Scenario, exp: HashMap<u32, Rc<Solo>>, some: HashMap<u32, Vec<(u64, Rc<Solo>)>>, pexp: Vec<Rc<Solo>>, logging: bool, fd: i32) {
    if !arena_init(sc.env.heap) { exit_now(9); }
    let mut s = set_sim(&sc.env, sc.seed, fd);
    s.policy = sc.policy.clone();
    s.out_plan = sc.out.clone(); s.out_tail = sc.tail; s.out_tail_from = sc.tail_from;
    s.logging = logging;
    if sc.env.envrand { other_environment(Rng(mix(sc.env.seed ^ 0xe27))); }
    if let Some(p) = &sc.plan { s.replay = true; for d in p { s.plan.insert((d.0, d.1, d.2, d.3), d.4); } }
    install(s);
    if sc.plan.is_none() {
        // basic blocks worth switching at: rare ones of these operations, and ones no call reaches alone
        let n = NGUARDS.load(std::sync::atomic::Ordering::Relaxed) as usize;
        let all: Vec<&Rc<Solo>> = exp.values().chain(pexp.iter()).collect();
        if !all.is_empty() && !sc.ops().any(|o| o.text.starts_with("sink ")) {
            for g in 1..=n.min(MAXG - 1) { unsafe { if !all.iter().any(|s| seen(s, g)) { WATCH[g] = 2; WLEFT[g] = 6; } } }
            for s in &all { for r in &s.rare { unsafe { if WATCH[r.0 as usize] == 0 { WATCH[r.0 as usize] = 1; WLEFT[r.0 as usize] = 12; } } } }
        }
    }
    let objects = !sc.head.is_empty();
    let pool: Arc<Shared<Vec<Option<A>>>> = {
        let cell: Arc<Shared<std::cell::RefCell<Vec<Option<A>>>>> = Arc::new(Shared(std::cell::RefCell::new(vec![])));
        if !sc.pool.is_empty() {
            pool_begin();
            sim().n = 1; init_task(0);
            let (c2, specs, pe) = (cell.clone(), sc.pool.clone(), pexp.iter().map(|s| (s.out.clone(), s.ev)).collect::<Vec<_>>());
            let h = spawn(0, move || {
                for (k, p) in specs.iter().enumerate() {
                    begin_op(900_000 + k as u32, 100_000_000 + 20 * pe[k].1);
                    let l = parse(p);
                    let a = lib(|| make(&l)).ok();
                    end_op();
                    let got = a.as_ref().map(e_arg).unwrap_or("!".into());
                    if got != pe[k].0 { violation("answer", &format!("building {} gave {}, alone it gives {}", p, got, pe[k].0)); }
                    c2.borrow_mut().push(a);
                }
            });
            run_tasks(vec![h]);
        }
        let v = cell.0.take();
        if !sc.pool.is_empty() { pool_end(v.as_ptr() as usize, v.len() * std::mem::size_of::<Option<A>>()); }
        Arc::new(Shared(v))
    };
    let pinit: Arc<Vec<String>> = Arc::new(pexp.iter().map(|s| s.out.clone()).collect());
    let exp = Arc::new(Shared((exp, some)));
    let world = if objects { Some(Arc::new(Shared(World::new(&sc)))) } else { None };
    let strict = sc.prop == "C03";
    let mut live: Vec<i64> = vec![];
    for rep in 0..sc.reps {
        for w in &sc.waves {
            let mut hs = vec![];
            // tasks suspended forever, and threads of the code itself, keep their places
            for t in w { if !matches!(task(t.id).st, St::Free | St::Done) { violation("harness", "task slot in use"); } init_task(t.id); }
            let top = (0..MAXT).rev().find(|&i| task(i).st != St::Free).map_or(0, |i| i + 1);
            sim().n = top;
            for t in w {
                let (ops, id) = (t.ops.clone(), t.id);
                let (pool, exp, pinit, world, sc) = (pool.clone(), exp.clone(), pinit.clone(), world.clone(), sc.clone());
                hs.push(spawn_late(id, move || {
                    for o in &ops {
                        if sim().over { break; }
                        if o.text.starts_with('$') { continue; }
                        run_op(&sc, o, rep, &pool, &pinit, &exp, world.as_deref(), strict);
                    }
                    if !ops.iter().any(|o| o.text.starts_with('$')) { return None; }
                    Some(Box::new(move || for o in &ops {
                        if sim().over { break; }
                        if o.text.starts_with('$') { run_op(&sc, o, rep, &pool, &pinit, &exp, world.as_deref(), strict); }
                    }) as Box<dyn FnOnce()>)
                }));
            }
            run_tasks(hs);
        }
        live.push(unsafe { LIVE });
        if sim().over { break; }
    }
    if let Some(w) = &world {
        sim().n = 0;
        let id = (0..MAXT).find(|&i| matches!(task(i).st, St::Free | St::Done)).unwrap();
        init_task(id);
        sim().n = (0..MAXT).rev().find(|&i| task(i).st != St::Free).map_or(0, |i| i + 1);
        let w = w.clone();
        let h = spawn(id, move || { begin_op(990_000, 400_000_000); w.finish(); end_op(); });
        run_tasks(vec![h]);
    }
    for (k, p) in pool.iter().enumerate() {
        let got = p.as_ref().map(e_arg).unwrap_or("!".into());
        if got != pinit[k] { violation("operand", &format!("the shared operand {} became {}", pinit[k], got)); }
    }
    if sc.prop == "C12" && live.len() >= 16 {
        let n = live.len();
        let at = [n / 8, n / 4, n / 2, n];
        let m: Vec<i64> = at.iter().map(|&k| live[k - 1]).collect();
        fold(0xc12);
        if m.windows(2).all(|w| w[1] > w[0]) {
            violation("growth", &format!("bytes kept after {:?} repetitions of the same batch: {:?}", at, m));
        }
    }
    report(&(summary() + "done\n"));
}
fn run_op(sc: &Scenario, o: &OpSpec, rep: u32, pool: &Arc<Shared<Vec<Option<A>>>>, pinit: &Arc<Vec<String>>, exp: &(HashMap<u32, Rc<Solo>>, HashMap<u32, Vec<(u64, Rc<Solo>)>>), world: Option<&Shared<World>>, strict: bool) {
    let id = rep * 1_000_000 + o.id;
    if let Some(w) = world {
        begin_op(id, 200_000_000);
        match o.fault { Fault::Oom(n) => w.arm(n), _ => w.arm(NEVER) }
        w.op(&o.text);
        end_op();
        return;
    }
    let e = &exp.0[&o.id];
    let times = match split_many(&o.text).0 { Many::Once => 1, Many::Same(n) => n, Many::Sweep(..) => 1 };
    let budget = if strict && !matches!(split_many(&o.text).0, Many::Sweep(..)) { 4 * e.ev * times + 200_000 } else { 20 * e.ev * times + 40_000_000 };
    begin_op(id, budget);
    let c = me();
    match o.fault {
        Fault::None => {}
        Fault::Oom(n) => c.oom_at = n,
        Fault::OomNovel => c.oom_novel = true,
        Fault::Stall(n) => c.stall_at = n,
        Fault::StallNovel => c.stall_novel = true,
    }
    if o.text.starts_with("sink ") {
        let r = sink::run(&o.text, pool, &e.out);
        let narr = format!("{} {} -> {}", c.id, o.text, r);
        end_op();
        fold_str(&r);
        if sim().logging { sim().log.push(narr); }
        return;
    }
    let (many, text) = split_many(&o.text);
    let mut out = String::new();
    match many {
        Many::Sweep(n, seed) => {
            // every variation twice, in two orders: whatever was answered first must be answered again
            let mut first: Vec<u64> = Vec::with_capacity(n as usize);
            let known = exp.1.get(&o.id).map_or(&[][..], |v| &v[..]);
            let check = |i: u64, a: &str, t: &str| for k in known { if k.0 == i && k.1.out != a { violation("answer", &format!("task {} op {}: {} returned {} but alone it returns {}", me().id, o.id, expand(t, &sc.pool), a, k.1.out)); } };
            for i in 0..n {
                let t = vary(text, seed, i);
                c.budget = c.ev + budget;
                let a = perform(&t, pool);
                count("calls");
                if a == "!" { count("calls_refused"); }
                if i == 0 && a != e.out { violation("answer", &format!("task {} op {}: {} returned {} but alone it returns {}", c.id, o.id, expand(text, &sc.pool), a, e.out)); }
                check(i, &a, &t);
                first.push(hash_of(&a));
            }
            let mut r = Rng(mix(seed));
            for j in 0..n {
                let i = if seed % 3 == 0 { n - 1 - j } else if seed % 3 == 1 { j } else { r.below(n) };
                let t = vary(text, seed, i);
                c.budget = c.ev + budget;
                let a = perform(&t, pool);
                count("calls");
                check(i, &a, &t);
                if hash_of(&a) != first[i as usize] { violation("answer", &format!("task {} op {}: {} returned {}, unlike the first time in the same history", c.id, o.id, expand(&t, &sc.pool), a)); }
            }
            fold(first.iter().fold(0, |a, &h| mix(a ^ h)));
            count("sweeps");
            end_op();
        }
        _ => {
            let n = if let Many::Same(n) = many { count("bursts"); n } else { 1 };
            for i in 0..n {
                c.oom_fired = false;
                out = if o.text.starts_with('^') { unwinding(text, pool) } else { perform(text, pool) };
                let oom = c.oom_fired;
                if i + 1 == n { end_op(); }
                count("calls");
                if out == "!" { count(if oom { "calls_aborted" } else { "calls_refused" }); }
                if i < 4 || i + 1 == n { fold_str(&out); }
                if i + 1 == n && sim().logging { sim().log.push(format!("task {} op {} rep {}: {} -> {}", c.id, o.id, rep, o.text, if out.len() > 300 { &out[..300] } else { &out })); }
                if out != e.out && !(oom && out.contains('!')) {
                    violation("answer", &format!("task {} op {}: {}{} returned {} but alone it returns {}", c.id, o.id, if n > 1 { format!("call {} of {} in a row of ", i + 1, n) } else { String::new() }, expand(text, &sc.pool), out, e.out));
                }
            }
        }
    }
    if out == "!" {
        for w in o.text.split(' ') {
            if let Some(k) = w.strip_prefix('@') {
                let k: usize = k.parse().unwrap();
                let got = pool[k].as_ref().map(e_arg).unwrap_or("!".into());
                if got != pinit[k] { violation("operand", &format!("after the refused {} the shared operand {} became {}", expand(&o.text, &sc.pool), pinit[k], got)); }
            }
        }
    }
}

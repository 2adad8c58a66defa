//! The check: workers search seeds; a violation is minimised, written to a file and replayed.
use crate::exec::*;
use crate::gens::*;
use crate::rt::{self, raw_write, Policy};
use crate::scen::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::{Duration, Instant};

pub struct Tier { pub runs: u64, pub wall: u64 }
pub fn tier(prop: &str, thorough: bool) -> Tier {
    let q = match prop {
        "C01" => 10000, "C02" => 4400, "C03" => 9600, "C04" => 8000, "C05" => 120000, "C06" => 40000, "C07" => 24000, "C08" => 160000, "C09" => 12000, "C10" => 8000, "C11" => 5200, "C12" => 4000, _ => 200000,
    };
    if thorough { Tier { runs: q * 30, wall: 3300 } } else { Tier { runs: q, wall: 75 } }
}
extern "C" { fn malloc_trim(pad: usize) -> i32; }
const W: u64 = 8;
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Clean, Discard(&'static str), Bad(String, String) }
pub fn judge(r: &Report) -> Out {
    if let Some((k, d)) = &r.viol { return if k == "harness" { Out::Discard("harness") } else { Out::Bad(k.clone(), d.clone()) }; }
    if r.code == 9 { return Out::Discard("heap address taken"); }
    if r.sig == libc::SIGALRM { return Out::Discard("ran out of real time"); }
    if !r.done {
        if r.lines.iter().any(|l| l == "oomfired") { return Out::Discard("aborted by an injected allocation failure"); }
        return Out::Bad("crash".into(), format!("the process died (signal {}, exit {})", r.sig, r.code));
    }
    Out::Clean
}
struct Cell(*mut u64);
impl Cell {
    fn new() -> Cell { unsafe { let p = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64; *p = u64::MAX; Cell(p) } }
    fn get(&self) -> u64 { unsafe { std::ptr::read_volatile(self.0) } }
    fn next(&self) -> u64 { unsafe { let a = &*(self.0.add(1) as *const std::sync::atomic::AtomicU64); a.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } }
    fn min(&self, v: u64) { unsafe { let a = &*(self.0 as *const std::sync::atomic::AtomicU64); a.fetch_min(v, std::sync::atomic::Ordering::SeqCst); } }
}
fn known(dir: &str, prop: &str, detail: &str) -> Option<String> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} ", prop)) { if detail.contains(r.trim()) { return Some(r.trim().to_string()); } }
    }
    None
}
pub fn check(prop: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut t = tier(prop, thorough);
    if let Ok(n) = std::env::var("ECSIM_RUNS") { t.runs = n.parse().unwrap(); }
    let best = Cell::new();
    let mut fds = vec![];
    let mut pids = vec![];
    for w in 0..W {
        unsafe {
            let mut p = [0i32; 2];
            assert!(libc::pipe2(p.as_mut_ptr(), 0) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(p[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET((w % libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64) as usize, &mut set);
                rt::raw6(203, 0, std::mem::size_of_val(&set) as i64, &set as *const _ as i64, 0, 0, 0);
                worker(prop, seed, w, &t, thorough, &best, p[1], dir, t0);
                rt::exit_now(0);
            }
            libc::close(p[1]);
            fds.push(p[0]); pids.push(pid);
        }
    }
    let mut data: Vec<Vec<u8>> = vec![vec![]; fds.len()];
    let mut open = fds.len();
    let mut pf: Vec<libc::pollfd> = fds.iter().map(|&f| libc::pollfd { fd: f, events: libc::POLLIN, revents: 0 }).collect();
    while open > 0 {
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, -1); }
        for i in 0..pf.len() {
            if pf[i].fd >= 0 && pf[i].revents != 0 {
                let mut b = vec![0u8; 65536];
                let n = unsafe { libc::read(pf[i].fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
                if n > 0 { data[i].extend_from_slice(&b[..n as usize]); } else if n == 0 { unsafe { libc::close(pf[i].fd); } pf[i].fd = -1; open -= 1; }
            }
        }
    }
    let mut bad_exit = false;
    for p in pids { let mut st = 0; unsafe { libc::waitpid(p, &mut st, 0); } if st != 0 { bad_exit = true; } }
    // gather
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut sched: HashSet<String> = HashSet::new();
    let mut nontriv: HashSet<String> = HashSet::new();
    let mut cov: Vec<u8> = vec![];
    let mut viol: Option<(u64, String)> = None;
    let mut samples: Vec<(u64, String)> = vec![];
    let mut ngd = 0usize;
    let mut finds: BTreeMap<String, u64> = BTreeMap::new();
    for d in &data {
        for l in String::from_utf8_lossy(d).lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "n" => { let (a, b) = r.split_once('\t').unwrap(); *sum.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap(); }
                "h" => { for x in r.split(' ') { if let Some(y) = x.strip_prefix('+') { nontriv.insert(y.into()); sched.insert(y.into()); } else { sched.insert(x.into()); } } }
                "c" => { if cov.len() < r.len() { cov.resize(r.len(), 0); } for (i, c) in r.bytes().enumerate() { cov[i] |= (c as char).to_digit(16).unwrap_or(0) as u8; } }
                "g" => ngd = r.parse().unwrap(),
                "v" => { let (i, d) = r.split_once(' ').unwrap(); let i: u64 = i.parse().unwrap(); if viol.as_ref().map_or(true, |v| i < v.0) { viol = Some((i, d.to_string())); } }
                "k" => { finds.entry(r.to_string()).and_modify(|x| *x += 1).or_insert(1); }
                "s" => { let (i, d) = r.split_once(' ').unwrap(); samples.push((i.parse().unwrap(), d.to_string())); }
                _ => {}
            }
        }
    }
    samples.sort();
    for f in finds.keys() { println!("KNOWN-FINDING: property={} {}", prop, f); }
    let mut code = 0;
    if let Some((idx, d)) = &viol {
        code = report_violation(prop, seed, *idx, thorough, dir, d);
    } else if bad_exit { println!("a worker of the check died"); code = 2; }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, dir, thorough, seed, &sum, sched.len(), nontriv.len(), &cov, ngd, &samples, wall, if code == 1 { 1 } else { 0 });
    let g = |k: &str| sum.get(k).cloned().unwrap_or(0);
    println!("{}: {} runs in {:.1} s, {} distinct, {} calls, {} operations, {} switches inside calls, {} events, discarded {}, {}", prop, g("runs"), wall, sched.len(), g("calls"), g("operations"), g("preempt_in_call"), g("events"), g("discarded"),
        sum.iter().filter(|x| x.0.starts_with("fault")).map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>().join(", "));
    code
}
#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, seed: u64, w: u64, t: &Tier, thorough: bool, best: &Cell, fd: i32, dir: &str, t0: Instant) {
    let mut memo = Memo::new();
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<String> = vec![];
    let mut cov: Vec<u8> = vec![];
    let mut idx = best.next();
    let prof = std::env::var("ECSIM_PROF").is_ok();
    while idx < t.runs {
        if idx > best.get() { break; }
        if t0.elapsed() > Duration::from_secs(t.wall) { *sum.entry("stopped_by_wall_clock".into()).or_insert(0) += 1; break; }
        let ts = Instant::now();
        let g = generate(prop, seed, idx, thorough, &mut memo);
        let tg = ts.elapsed();
        let mut add = |k: &str, v: u64| *sum.entry(k.to_string()).or_insert(0) += v;
        match g {
            Gen::Skip => { add("skipped_scenarios", 1); }
            Gen::Hang(text) => {
                // does it really not end? ask again with far more patience
                add("slow_calls_rechecked", 1);
                let s = solo_patient(&text);
                if prof { eprintln!("slow call {} {} ev {} {:?} {}", idx, s.ok(), s.ev, ts.elapsed(), &text[..text.len().min(150)]); }
                if s.died() { best.min(idx); raw_write(fd, format!("v {} crash {} ends the process\n", idx, text).as_bytes()); break; }
                if s.hang || s.blocked { best.min(idx); raw_write(fd, format!("v {} no-end {} does not end by itself\n", idx, text).as_bytes()); break; }
            }
            Gen::Run(sc) => {
                let r = run(&sc, &mut memo, false);
                let mut o = judge(&r);
                if matches!(&o, Out::Bad(k, _) if k == "growth") {
                    // does it go on growing, or was it a bounded table filling up?
                    let mut more = sc.clone();
                    more.reps = (sc.reps * 16).min((sc.reps as u64 * 4_000_000_000 / (r.get("events") + 1)) as u32).clamp(sc.reps, 4000);
                    if !matches!(judge(&run(&more, &mut memo, false)), Out::Bad(k, _) if k == "growth") { add("growth_that_levelled_off", 1); o = Out::Clean; }
                }
                if r.lines.len() > 60_000 { unsafe { malloc_trim(0); } }
                add("runs", 1);
                if prof && ts.elapsed().as_millis() > 400 { eprintln!("slow {} gen {:?} total {:?} events {} ops {}", idx, tg, ts.elapsed(), r.get("events"), sc.ops().count()); }
                match o {
                    Out::Bad(k, d) => {
                        if let Some(f) = known(dir, prop, &d) { raw_write(fd, format!("k {}\n", f).as_bytes()); idx = best.next(); continue; }
                        best.min(idx);
                        raw_write(fd, format!("v {} {} {}\n", idx, k, d).as_bytes());
                        break;
                    }
                    Out::Discard(why) => { add("discarded", 1); add(&format!("discarded: {}", why), 1); if prof { eprintln!("discard {} {}", idx, why); } }
                    Out::Clean => {
                        let st = r.stats();
                        let faults: u64 = st.iter().filter(|s| s.0.starts_with("fault") || s.0 == "preempt_in_call" || s.0 == "clock_jumps").map(|s| s.1).sum();
                        let nt = faults > 0 || r.get("switches") > 1 || matches!(prop, "C02" | "C11" | "C12");
                        hashes.push(format!("{}{}", if nt { "+" } else { "" }, r.hash()));
                        for (k, v) in st { add(&k, v); }
                        add("switches", r.get("switches")); add("events", r.get("events")); add("simulated_ns", r.get("simtime").saturating_sub(1_000_000_000).min(1 << 55));
                        add("operations_in_scenarios", sc.ops().count() as u64);
                        add("tasks", sc.waves.iter().map(|w| w.len() as u64).sum());
                        let c = r.cov();
                        if cov.len() < c.len() { cov.resize(c.len(), 0); }
                        for (i, x) in c.bytes().enumerate() { cov[i] |= (x as char).to_digit(16).unwrap_or(0) as u8; }
                        if idx < 6 { raw_write(fd, format!("s {} {}\n", idx, sc.show().replace('\n', " / ")).as_bytes()); }
                    }
                }
            }
        }
        idx = best.next();
    }
    *sum.entry("distinct_calls_run_alone_for_reference".into()).or_insert(0) += memo.len() as u64;
    if prof { eprintln!("PROF {} {:?} {:?}", w, unsafe { PROF }, t0.elapsed()); }
    let mut o = String::new();
    for (k, v) in &sum { o += &format!("n {}\t{}\n", k, v); }
    for c in hashes.chunks(500) { o += &format!("h {}\n", c.join(" ")); }
    o += &format!("c {}\n", cov.iter().map(|v| std::char::from_digit(*v as u32, 16).unwrap()).collect::<String>());
    o += &format!("g {}\n", rt::NGUARDS.load(std::sync::atomic::Ordering::Relaxed));
    raw_write(fd, o.as_bytes());
}
// ---------------------------------------------------------------- minimising
fn same(sc: &Scenario, memo: &mut Memo, kind: &str) -> Option<Report> {
    let r = run(sc, memo, false);
    match judge(&r) { Out::Bad(k, _) if k == kind => Some(r), _ => None }
}
fn freeze(sc: &Scenario, r: &Report) -> Scenario {
    let mut c = sc.clone();
    c.plan = Some(r.decisions());
    if c.head.is_empty() && c.reps == 1 {
        let res = r.resolved();
        for w in c.waves.iter_mut() { for t in w.iter_mut() { for o in t.ops.iter_mut() {
            o.fault = match res.iter().find(|x| x.1 == t.id && x.2 == o.id) { Some(x) if x.0 == "oom" => Fault::Oom(x.3), Some(x) => Fault::Stall(x.3), None => Fault::None };
        } } }
    }
    c
}
pub fn shrink(sc: &Scenario, memo: &mut Memo, kind: &str, secs: u64) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let late = |t0: &Instant| t0.elapsed().as_secs() >= secs;
    let mut cur = sc.clone();
    // record the schedule and the faults' places
    let r = match same(sc, memo, kind) { Some(r) => r, None => return (cur, 0) };
    let f = freeze(sc, &r);
    if same(&f, memo, kind).is_some() { cur = f; }
    let mut go = |c: Scenario, cur: &mut Scenario, memo: &mut Memo| -> bool { tries += 1; if let Some(r) = same(&c, memo, kind) { let mut c = c; if c.plan.is_some() { c.plan = Some(r.decisions()); } *cur = c; true } else { false } };
    loop {
        let before = size(&cur);
        // no switches at all?
        if cur.plan.as_ref().map_or(false, |p| !p.is_empty()) { let mut c = cur.clone(); c.plan = Some(vec![]); go(c, &mut cur, memo); }
        // waves, tasks
        let mut i = 0;
        while i < cur.waves.len() && !late(&t0) { if cur.waves.len() > 1 { let mut c = cur.clone(); c.waves.remove(i); if go(c, &mut cur, memo) { continue; } } i += 1; }
        for wv in 0..cur.waves.len() { let mut i = 0; while wv < cur.waves.len() && i < cur.waves[wv].len() && !late(&t0) { if cur.waves[wv].len() > 1 { let mut c = cur.clone(); c.waves[wv].remove(i); if go(c, &mut cur, memo) { continue; } } i += 1; } }
        // operations, in falling block sizes
        for wv in 0..cur.waves.len() { for ti in 0..cur.waves[wv].len() {
            let mut block = cur.waves[wv][ti].ops.len();
            while block >= 1 && !late(&t0) {
                let mut i = 0;
                while i < cur.waves[wv][ti].ops.len() && !late(&t0) {
                    let mut c = cur.clone();
                    let end = (i + block).min(c.waves[wv][ti].ops.len());
                    c.waves[wv][ti].ops.drain(i..end);
                    if !go(c, &mut cur, memo) { i += block; }
                }
                block /= 2;
            }
        } }
        let mut c = cur.clone();
        for w in c.waves.iter_mut() { w.retain(|t| !t.ops.is_empty()); }
        c.waves.retain(|w| !w.is_empty());
        if size(&c) != size(&cur) || c.waves.len() != cur.waves.len() { go(c, &mut cur, memo); }
        // long repetitions and sweeps
        let many: Vec<(usize, usize, usize)> = (0..cur.waves.len()).flat_map(|a| (0..cur.waves[a].len()).map(move |b| (a, b)).collect::<Vec<_>>()).flat_map(|(a, b)| (0..cur.waves[a][b].ops.len()).map(|c| (a, b, c)).collect::<Vec<_>>()).collect();
        for (a, b, c) in many {
            let mut step = u64::MAX;
            while !late(&t0) {
                let (m, rest) = split_many(&cur.waves[a][b].ops[c].text);
                let rest = rest.to_string();
                let n = match m { Many::Once => break, Many::Same(n) | Many::Sweep(n, _) => n };
                step = step.min(n / 2);
                if step == 0 { break; }
                let mut x = cur.clone();
                x.waves[a][b].ops[c].text = match m { Many::Sweep(_, s) => format!("~{}.{} {}", n - step, s, rest), _ => format!("*{} {}", n - step, rest) };
                if !go(x, &mut cur, memo) { step /= 2; }
            }
        }
        // faults
        let ids: Vec<u32> = cur.ops().filter(|o| o.fault != Fault::None).map(|o| o.id).collect();
        for id in ids { if late(&t0) { break; } let mut c = cur.clone(); for o in c.waves.iter_mut().flatten().flat_map(|t| t.ops.iter_mut()) { if o.id == id { o.fault = Fault::None; } } go(c, &mut cur, memo); }
        // stdout plan
        let mut i = 0;
        while i < cur.out.len() && !late(&t0) { let mut c = cur.clone(); c.out.remove(i); if !go(c, &mut cur, memo) { i += 1; } }
        if cur.tail != 0 { let mut c = cur.clone(); c.tail = 0; go(c, &mut cur, memo); }
        // environment
        if cur.env.envrand || cur.env.jumpy || cur.env.seed != 0 {
            for k in 0..6 { let mut c = cur.clone(); let e = Env::reference(); match k { 0 => c.env.envrand = false, 1 => c.env.jumpy = false, 2 => c.env.cpus = e.cpus, 3 => c.env.heap = 0, 4 => c.env.stack = 0, _ => c.env.entropy = e.entropy } go(c, &mut cur, memo); }
        }
        // decisions, in falling block sizes
        let mut block = cur.plan.as_ref().map_or(0, |p| p.len());
        while block >= 1 && !late(&t0) {
            let mut i = 0;
            while i < cur.plan.as_ref().map_or(0, |p| p.len()) && !late(&t0) {
                let mut c = cur.clone();
                let p = c.plan.as_mut().unwrap();
                let end = (i + block).min(p.len());
                p.drain(i..end);
                if !go(c, &mut cur, memo) { i += block; }
            }
            block /= 2;
        }
        // shared operands nobody uses any more
        for k in (0..cur.pool.len()).rev() {
            let at = format!("@{}", k);
            if cur.ops().any(|o| o.text.split(' ').any(|w| w == at)) { continue; }
            let mut c = cur.clone();
            c.pool.remove(k);
            for o in c.waves.iter_mut().flatten().flat_map(|t| t.ops.iter_mut()) { o.text = o.text.split(' ').map(|w| match w.strip_prefix('@').and_then(|x| x.parse::<usize>().ok()) { Some(j) if j > k => format!("@{}", j - 1), _ => w.to_string() }).collect::<Vec<_>>().join(" "); }
            go(c, &mut cur, memo);
        }
        if size(&cur) >= before || late(&t0) { break; }
    }
    (cur, tries)
}
fn size(c: &Scenario) -> usize { c.waves.len() + c.waves.iter().map(|w| w.len()).sum::<usize>() + c.ops().count() * 4 + c.ops().map(|o| match split_many(&o.text).0 { Many::Once => 0, Many::Same(n) | Many::Sweep(n, _) => n as usize }).sum::<usize>() + c.ops().filter(|o| o.fault != Fault::None).count() + c.plan.as_ref().map_or(1000, |p| p.len()) + c.out.len() + c.pool.len() }
fn self_run(args: &[&str]) -> (i32, String) {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).args(args).output().expect("run self");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string())
}
fn report_violation(prop: &str, seed: u64, idx: u64, thorough: bool, dir: &str, found: &str) -> i32 {
    let mut memo = Memo::new();
    let outdir = format!("{}/out", dir);
    let _ = std::fs::create_dir_all(&outdir);
    let path = format!("{}/{}-{}-{}.replay", outdir, prop, seed, idx);
    let kind = found.split(' ').next().unwrap().to_string();
    println!("violation found by seed {} run {}: {}", seed, idx, found);
    let sc = match generate(prop, seed, idx, thorough, &mut memo) {
        Gen::Hang(text) => {
            let mut s = Scenario::new(prop, 0);
            s.head.push("solo".into());
            s.waves.push(vec![TaskSpec { id: 0, ops: vec![OpSpec { id: 1, text, fault: Fault::None }] }]);
            s.plan = Some(vec![]);
            s
        }
        Gen::Run(sc) => {
            // the shrinking is done by a child, so that whatever happens to it the scenario as found is still reported
            let small = format!("{}.small", path);
            let _ = std::fs::remove_file(&small);
            let r = in_fork(400, |_| { let c = shrink(&sc, &mut memo, &kind, if thorough { 120 } else { 60 }).0; let _ = std::fs::write(&small, c.show()); });
            let text = std::fs::read_to_string(&small);
            let _ = std::fs::remove_file(&small);
            match text { Ok(t) if r.sig == 0 => Scenario::parse(&t), _ => { println!("could not be minimised (signal {}, exit {})", r.sig, r.code); let a = run(&sc, &mut memo, false); freeze(&sc, &a) } }
        }
        Gen::Skip => { println!("the scenario could not be made again"); return 2; }
    };
    if std::fs::write(&path, sc.show()).is_err() { println!("cannot write {}", path); return 2; }
    let (c1, o1) = self_run(&["replay", &path]);
    let (c2, o2) = self_run(&["replay", &path]);
    let line = |o: &str, k: &str| o.lines().find(|l| l.starts_with(k)).unwrap_or("").to_string();
    let (h1, h2) = (line(&o1, "hash"), line(&o2, "hash"));
    println!("minimised to {} operations, {} switches; replayed twice: {} {}", sc.ops().count(), sc.plan.as_ref().map_or(0, |p| p.len()), h1, h2);
    println!("{}", line(&o1, "violation"));
    let _ = std::fs::write(&path, format!("{}# {}\n# {}\n", sc.show(), line(&o1, "violation"), h1));
    if c1 != 1 || c2 != 1 || h1 != h2 { println!("warning: the replay did not come out the same (exit {} {})", c1, c2); }
    println!("VIOLATION property={} replay={}", prop, path);
    1
}
pub fn replay(path: &str) -> i32 {
    let sc = Scenario::parse(&std::fs::read_to_string(path).expect("replay file"));
    if sc.head.first().map_or(false, |h| h == "solo") {
        let op = sc.ops().next().unwrap().text.clone();
        let s = solo_patient(&op);
        println!("hash {}", s.hang || s.blocked);
        if s.died() { println!("violation crash {} ends the process", op); return 1; }
        if s.hang || s.blocked { println!("violation no-end {} does not end by itself", op); return 1; }
        println!("no violation: {} -> {}", op, s.out);
        return 0;
    }
    let mut memo = Memo::new();
    let r = run(&sc, &mut memo, true);
    for l in &r.lines { if let Some(x) = l.strip_prefix("log ") { println!("| {}", x); } }
    println!("hash {}", r.hash());
    match judge(&r) { Out::Bad(k, d) => { println!("violation {} {}", k, d); 1 } o => { println!("no violation ({:?})", o); 0 } }
}
/// Runs scenarios of every property twice, and once more through the replay path: everything must come out the same.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut memo: HashMap<String, std::rc::Rc<Solo>> = Memo::new();
    for prop in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"] {
        let (mut runs, mut sw) = (0, 0);
        for idx in 0..n {
            if let Gen::Run(sc) = generate(prop, 99, idx, false, &mut memo) {
                let a = run(&sc, &mut memo, false);
                let mut m2 = Memo::new();
                let sc2 = match generate(prop, 99, idx, false, &mut m2) { Gen::Run(s) => s, _ => { println!("{} {}: generation differs", prop, idx); bad += 1; continue; } };
                if sc2.show() != sc.show() { println!("{} {}: scenario differs", prop, idx); bad += 1; continue; }
                let b = run(&Scenario::parse(&sc.show()), &mut m2, false);
                let c = run(&freeze(&sc, &a), &mut memo, false);
                runs += 1; sw += a.get("switches");
                let skip = a.lines.iter().any(|l| l == "oomfired") && !a.done;
                if a.hash() != b.hash() || a.get("events") != b.get("events") || a.decisions() != b.decisions() { println!("{} {}: two runs differ: {} {} events {} {}", prop, idx, a.hash(), b.hash(), a.get("events"), b.get("events")); bad += 1; }
                else if !skip && (a.get("events") != c.get("events") || a.hash() != c.hash()) { println!("{} {}: the replay differs: {} {} events {} {} decisions {} {}", prop, idx, a.hash(), c.hash(), a.get("events"), c.get("events"), a.decisions().len(), c.decisions().len()); bad += 1; }
            }
        }
        println!("{}: {} runs repeated, {} switches, {} differences so far", prop, runs, sw, bad);
    }
    if bad > 0 { 2 } else { 0 }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }
#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, dir: &str, thorough: bool, seed: u64, sum: &BTreeMap<String, u64>, distinct: usize, nontriv: usize, cov: &[u8], ngd: usize, samples: &[(u64, String)], wall: f64, violations: u64) {
    let g = |k: &str| sum.get(k).cloned().unwrap_or(0);
    let hit: u32 = cov.iter().map(|v| v.count_ones()).sum();
    let mut o = String::from("{\n");
    o += &format!("\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {{\n", js(prop), js(if thorough { "thorough" } else { "quick" }), seed);
    o += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {},\n", g("runs"), nontriv);
    o += &format!("\"rule\": {},\n", js("One evaluation is one simulated run: the scenario (operations, arguments, tasks, faults, schedule) is drawn from VERIF_SEED, the property and the run's number. Two runs are distinct when the hash over all scheduling decisions, injected faults and results differs; a run is non-trivial when a call was preempted inside, control passed between tasks at least twice, or a fault fired (for C02, C11 and C12 every completed run counts, their subject being history, environment and repetition)."));
    o += &format!("\"samples\": [{}],\n", samples.iter().take(3).map(|s| js(&s.1.chars().take(1500).collect::<String>())).collect::<Vec<_>>().join(",\n"));
    o += &format!("\"distinct_executions_by_hash\": {}, \"runs_per_hour\": {}, \"simulated_seconds\": {:.3},\n", distinct, (g("runs") as f64 / wall * 3600.0) as u64, g("simulated_ns") as f64 / 1e9);
    o += &format!("\"instrumented_basic_blocks_of_the_crate\": {}, \"basic_blocks_reached\": {},\n", ngd, hit);
    o += &format!("\"faults_injected\": {{{}}},\n", sum.iter().filter(|x| x.0.starts_with("fault") || x.0 == "clock_jumps").map(|x| format!("{}: {}", js(x.0), x.1)).collect::<Vec<_>>().join(", "));
    o += &format!("\"counters\": {{{}}},\n", sum.iter().filter(|x| !x.0.starts_with("fault")).map(|x| format!("{}: {}", js(x.0), x.1)).collect::<Vec<_>>().join(", "));
    o += &format!("\"real_components\": {}, \"stubbed_components\": {}\n}},\n", js("the whole crate ellipticcurve and its dependencies, compiled from /repo; std's collections, formatting, stdout buffering, panics, locks and threads"),
        js("scheduling, futex waits, clocks, entropy, CPU count, environment variables, the heap, and the kernel's side of writes to standard output"));
    o += &format!("\"assumptions\": [{}],\n", ["switches happen at basic blocks, loads, stores and allocations of the crate and at allocations, locks and writes of its dependencies, with sequentially consistent memory", "injected allocation failures arrive as panics (alloc error hook)", "the reference for a call is the same call made alone in a fresh process of the same build"].iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    o += &format!("\"wall_s\": {:.1}, \"violations\": {}\n}}\n", wall, violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let _ = std::fs::write(format!("{}/evidence/{}.json", dir, prop), o);
    let _ = Policy::Slice(0);
}

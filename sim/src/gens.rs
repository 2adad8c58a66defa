//! Scenario generators, one per property.
use crate::exec::*;
use crate::gen::*;
use crate::rt::{mix, Policy, Rng};
use crate::scen::*;
use crate::val::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::ToPrimitive;
use std::rc::Rc;

pub enum Gen { Run(Scenario), Hang(String), Skip }
pub fn rng_of(seed: u64, prop: &str, idx: u64) -> Rng {
    let h = prop.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
    Rng(mix(mix(seed) ^ mix(h) ^ mix(idx.wrapping_mul(0x9E3779B97F4A7C15))))
}
pub fn generate(prop: &str, seed: u64, idx: u64, thorough: bool, memo: &mut Memo) -> Gen {
    let mut r = rng_of(seed, prop, idx);
    let mut sc = Scenario::new(prop, r.u());
    match prop {
        "C05" => { poly(&mut r, &mut sc); Gen::Run(sc) }
        "C06" => { curve(&mut r, &mut sc); Gen::Run(sc) }
        "C07" => { sum(&mut r, &mut sc); Gen::Run(sc) }
        "C08" => { crt(&mut r, &mut sc); Gen::Run(sc) }
        "C13" => { builder(&mut r, &mut sc); Gen::Run(sc) }
        "C09" => { sinks(&mut r, &mut sc, memo); Gen::Run(sc) }
        _ => calls(prop, &mut r, sc, thorough, memo),
    }
}
fn policy(r: &mut Rng) -> Policy {
    match r.below(100) {
        0..=14 => Policy::Boundary(r.below(70) + 30),
        15..=49 => Policy::Slice(4 + r.logu(50_000)),
        50..=84 => Policy::Guard(15 + r.below(60)),
        _ => Policy::Prio(8 + r.logu(20_000)),
    }
}
// ---------------------------------------------------------------- runs made of independent calls
fn mutate(r: &mut Rng, k: &Kit, op: &str) -> String {
    let (n, rest) = op.split_once(' ').unwrap_or((op, ""));
    let d = crate::ops::op(n);
    let fresh = args(r, k, d.s);
    let join = |v: &[String]| if v.is_empty() { n.to_string() } else { format!("{} {}", n, v.join(" ")) };
    let tied = d.s.contains('C') || d.s.contains('r') || (d.s.contains('c') && (d.s.contains('G') || d.s.contains('B'))) || d.s.contains('v');
    if k.valid && tied || r.pct(25) || rest.is_empty() { return join(&fresh); }
    let mut v: Vec<String> = rest.split(' ').map(|s| s.to_string()).collect();
    let i = r.below(v.len() as u64) as usize;
    if r.pct(12) && !k.valid { if let Some(w) = alias(r, &v[i], d.s.as_bytes().get(i).map_or(' ', |&c| c as char)) { v[i] = w; return tame(&join(&v)); } }
    v[i] = fresh[i].clone();
    tame(&join(&v))
}
/// A literal that looks the same to whoever keeps only its lowest bits.
fn alias(r: &mut Rng, w: &str, letter: char) -> Option<String> {
    let far = |r: &mut Rng| -> i64 { (1i64 << *r.pick(&[8u32, 8, 8, 16, 16, 24, 7, 6, 10])) * *r.pick(&[1i64, 1, 1, 1, 2, 3, 5, -1]) };
    Some(match parse(w) {
        Lit::N(n) if letter == 'I' => format!("n={}", n + if r.pct(50) { b(far(r)) } else { b(*r.pick(&[1i64, 1, 1, 2, -1])) << *r.pick(&[31usize, 32, 32, 64, 64, 128]) }),
        Lit::N(n) if matches!(letter, 'd' | 'g' | 'D') => { let d = far(r); let n = n + b(d); if n > b(1 << 26) || n < b(0) { return None; } format!("n={}", n) }
        Lit::V(Some((i, j))) => { let d = far(r).abs() as i32; if r.pct(50) { format!("v={}.{}", i, j.checked_add(d)?) } else { format!("v={}.{}", i.checked_add(d)?, j) } }
        Lit::T(mut t) => { match r.below(4) { 0 => t.c += b(1) << *r.pick(&[8usize, 16, 32, 64]), 1 => t.x = t.x.checked_add(far(r).abs() as i32)?, 2 => t.y = t.y.checked_add(far(r).abs() as i32)?, _ => t.q = t.q.checked_add(far(r).abs() as i32)? } format!("t={}", show_td(&t)) }
        _ => return None,
    })
}
/// The operations that touch data a thread or the process keeps between calls, found by trying each a few times alone.
/// (None, as the library stands.) Runs are then built round them more often.
fn touchy() -> &'static Vec<usize> {
    static T: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut memo = Memo::new();
        let mut r = Rng(77);
        let ks: Vec<Kit> = (0..4).map(|_| kit(&mut r, true)).collect();
        let mut v = vec![];
        for (i, o) in crate::ops::OPS.iter().enumerate() {
            for k in &ks {
                let t = format!("{} {}", o.n, args(&mut r, k, o.s).join(" "));
                if solo_upto(&mut memo, t.trim_end(), 5_000_000).touch > 0 { v.push(i); break; }
                // it may be the arguments that keep something
                let s = memo[t.trim_end()].clone();
                if !s.ok() || !t.contains('=') { continue; }
                let mut sc = Scenario::new("C02", 1);
                let w: Vec<String> = t.split(' ').map(|w| if matches!(w.get(..2), Some("p=" | "t=" | "P=" | "C=" | "R=" | "S=")) { sc.pool.push(w.to_string()); format!("@{}", sc.pool.len() - 1) } else { w.to_string() }).collect();
                if sc.pool.is_empty() { continue; }
                sc.waves.push(vec![TaskSpec { id: 0, ops: (1..3).map(|id| OpSpec { id, text: w.join(" "), fault: Fault::None }).collect() }]);
                if touches(&run(&sc, &mut memo, false)) > 0 { v.push(i); break; }
            }
        }
        v
    })
}
/// One operand kept by the caller, and calls on it of which many are refused (by themselves, or for want of memory), between good ones:
/// as many refusals as it takes, so that nothing an abandoned call leaves behind adds up.
fn wear(r: &mut Rng, mut sc: Scenario, memo: &mut Memo) -> Gen {
    let cap = if r.pct(15) { 400_000 } else { 60_000 };
    let own: Vec<usize> = (0..crate::ops::OPS.len()).filter(|&i| matches!(crate::ops::OPS[i].s.chars().next(), Some('c' | 'r' | 'X' | 'Z' | 'U' | 'u' | 'Q' | 'T' | 't' | 'k' | 'L' | 'S'))).collect();
    // points, curves and residues first
    let i = *r.pick(&own);
    let i = if r.pct(45) { *r.pick(&own.iter().copied().filter(|&i| matches!(crate::ops::OPS[i].g, "curve" | "crt" | "linear" | "conv")).collect::<Vec<_>>()) } else { i };
    let me = &crate::ops::OPS[i];
    let kin: Vec<usize> = own.iter().copied().filter(|&j| crate::ops::OPS[j].s.chars().next() == me.s.chars().next()).collect();
    let (mut goods, mut bads): (Vec<Cand>, Vec<Cand>) = (vec![], vec![]);
    let k = kit(r, false);
    let mut first: Option<String> = None;
    for n in 0..60 {
        if goods.len() >= 4 && bads.len() >= 3 { break; }
        let o = if n % 3 != 0 { me } else { &crate::ops::OPS[*r.pick(&kin)] };
        let mut a = args(r, &k, o.s);
        match &first { Some(f) => if a[0] != *f { if o.s.contains('G') { continue; } a[0] = f.clone(); }, None => {} }
        if n % 2 == 1 || goods.len() >= 4 {
            // something the call may refuse
            let at = if a.len() > 1 { 1 + r.below(a.len() as u64 - 1) as usize } else { continue };
            a[at] = match &a[at][..2] {
                "P=" => { let p = r.pick(&k.pts[0]).clone(); format!("P={},{},{}", &p[0] + b(r.range(0, 2)), &p[1] + b(r.range(1, 3)), 1) }
                "n=" => format!("n={}", r.pick(&[0i64, -1, -7, 1, 4, 6])),
                "p=" => if r.pct(50) { show_pol(&[]) } else { show_pol(r.pick(&k.xs)) },
                "t=" => { let mut t = r.pick(&k.terms).clone(); t.c = b(0); format!("t={}", show_td(&t)) }
                "v=" => "v=9.9".into(),
                _ => continue,
            };
        }
        let text = tame(&format!("{} {}", o.n, a.join(" ")));
        if goods.iter().chain(&bads).any(|c| c.text == text) { continue; }
        let s = solo_upto(memo, &text, cap);
        if !s.ok() || s.ev > cap { continue; }
        if first.is_none() { first = Some(a[0].clone()); }
        if s.refused() { bads.push(Cand { text, solo: s }); } else { goods.push(Cand { text, solo: s }); }
    }
    let Some(first) = first else { return Gen::Skip };
    if goods.is_empty() || bads.is_empty() && goods.iter().all(|c| c.solo.allocs == 0) { return Gen::Skip; }
    { let s = solo(memo, &format!("make {}", first)); if !s.ok() || s.refused() || s.ev > 1_000_000 { return Gen::Skip; } }
    sc.pool.push(first.clone());
    let shared = |t: &str| t.split(' ').map(|w| if w == first { "@0".to_string() } else { w.to_string() }).collect::<Vec<_>>().join(" ");
    let nt = if r.pct(75) { 1 } else { 2 };
    let mut ts: Vec<TaskSpec> = (0..nt).map(|id| TaskSpec { id, ops: vec![] }).collect();
    let (mut id, mut spent) = (0u32, 0u64);
    let rounds = *r.pick(&[10u64, 20, 45, 45, 80, 280]);
    let keep = r.pct(60);
    let (g0, b0) = (r.below(goods.len() as u64) as usize, if bads.is_empty() { 0 } else { r.below(bads.len() as u64) as usize });
    let starve = bads.is_empty() || r.pct(30);
    for _ in 0..rounds {
        let t = r.below(nt as u64) as usize;
        let mut push = |text: String, fault: Fault| { id += 1; ts[t].ops.push(OpSpec { id, text, fault }); };
        let ruin = if starve && r.pct(80) || bads.is_empty() { r.pick(&goods) } else { &bads[if keep { b0 } else { r.below(bads.len() as u64) as usize }] };
        let many = if r.pct(6) { r.logu(70) } else { 1 };
        for _ in 0..many {
            if spent > 12_000_000 { break; }
            spent += ruin.solo.ev;
            let f = if ruin.solo.refused() || ruin.solo.allocs == 0 { Fault::None } else { Fault::Oom(1 + r.below(ruin.solo.allocs)) };
            push(shared(&ruin.text), f);
        }
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            let c = &goods[if keep && r.pct(80) { g0 } else { r.below(goods.len() as u64) as usize }];
            spent += c.solo.ev;
            push(shared(&c.text), Fault::None);
        }
        if spent > 12_000_000 { break; }
    }
    ts.retain(|t| !t.ops.is_empty());
    sc.waves.push(ts);
    sc.policy = policy(r);
    let least = spent / 20_000;
    match &mut sc.policy { Policy::Slice(m) | Policy::Prio(m) => *m = (*m).max(least), _ => {} }
    odd_places("C04", r, &mut sc);
    Gen::Run(sc)
}
/// More calls than a sixteen-bit count can tell apart, of an operation that keeps something between calls: the cheapest such call of several,
/// then a few others of the same operation.
fn ticks(prop: &str, r: &mut Rng, mut sc: Scenario, memo: &mut Memo) -> Gen {
    let mut cs: Vec<Cand> = vec![];
    for _ in 0..4 {
        let o = &crate::ops::OPS[*r.pick(touchy())];
        for _ in 0..12 {
            let k = kit(r, true);
            let text = tame(format!("{} {}", o.n, args(r, &k, o.s).join(" ")).trim_end());
            let s = solo_upto(memo, &text, 60_000);
            if s.ok() && s.ev <= 60_000 && s.narr < 3 && !text.starts_with("sink ") && (!s.refused() || r.pct(20)) && !cs.iter().any(|c| c.text == text) { cs.push(Cand { text, solo: s }); }
        }
    }
    // one that ends well and costs least, or nearly
    cs.sort_by_key(|c| (c.solo.refused(), c.solo.touch == 0, c.solo.ev));
    let Some(c) = cs.get(r.below(3.min(cs.len() as u64).max(1)) as usize) else { return Gen::Skip };
    let m = (700_000_000 / (2 * (c.solo.ev + 1_500))).min(66_500);
    if m < 600 { return Gen::Skip; }
    let mut id = 1;
    let mut t = TaskSpec { id: 0, ops: vec![OpSpec { id, text: format!("*{} {}", m, c.text), fault: Fault::None }] };
    for _ in 0..r.range(1, 8) { id += 1; t.ops.push(OpSpec { id, text: r.pick(&cs).text.clone(), fault: Fault::None }); }
    sc.waves.push(vec![t]);
    sc.policy = policy(r);
    match &mut sc.policy { Policy::Slice(m) | Policy::Prio(m) => *m = (*m).max(20_000), _ => {} }
    odd_places(prop, r, &mut sc);
    Gen::Run(sc)
}
struct Cand { text: String, solo: Rc<Solo> }
fn calls(prop: &str, r: &mut Rng, mut sc: Scenario, thorough: bool, memo: &mut Memo) -> Gen {
    if prop == "C04" && r.pct(18) || prop == "C02" && r.pct(3) { return wear(r, sc, memo); }
    if matches!(prop, "C02" | "C04" | "C11") && !touchy().is_empty() && r.pct(if prop == "C02" { 3 } else { 1 }) { return ticks(prop, r, sc, memo); }
    let valid = match prop { "C03" => true, "C04" => r.pct(25), _ => r.pct(50) };
    let k = kit(r, valid);
    let marathon = (prop == "C02" && r.pct(12)) || (prop == "C11" && r.pct(3)) || (prop == "C04" && r.pct(3));
    let duel = !touchy().is_empty() && r.pct(50) || matches!(prop, "C01" | "C03") && r.pct(5);
    let focus = r.pct(45) || duel;
    let mut groups = { let n = r.range(1, 3) as usize; pick_groups(r, n) };
    if prop == "C10" && r.pct(65) { groups = if r.pct(12) { vec!["schoof", "crt"] } else if r.pct(70) { vec!["crt"] } else { vec!["crt", "curve"] }; if r.pct(20) { groups.push(*r.pick(&["int", "poly", "curve", "conv"])); } }
    // how much work one run may be
    let heavy = r.pct(if thorough { 10 } else { 4 });
    let medium = !heavy && !marathon && r.pct(if thorough { 16 } else { 8 });
    // the costly operations need runs of their own
    let costly = (heavy || medium) && r.pct(if heavy { 40 } else { 70 });
    const COSTLY: &[&str] = &["modpol", "modpol", "schoof", "divpol", "secp", "qser", "curve"];
    if costly { groups = vec![*r.pick(COSTLY)]; if r.pct(30) { let g = *r.pick(COSTLY); if g != groups[0] { groups.push(g); } } }
    let (cap, total) = match prop {
        _ if duel && !heavy && !medium && prop != "C12" => (6_000_000, 12_000_000),
        "C12" if medium => (4_000_000, 6_000_000),
        _ if medium => (6_000_000, 30_000_000),
        "C12" => if heavy { (12_000_000u64, 14_000_000u64) } else { (150_000, 500_000) },
        _ => if heavy { (45_000_000, 150_000_000) } else if thorough { (4_000_000, 25_000_000) } else { (2_000_000, 8_000_000) },
    };
    let want = if marathon { r.range(60, if thorough { 1500 } else { 500 }) } else if duel { r.range(2, 5) } else if focus { r.range(3, 14) } else { r.range(4, 22) } as usize;
    let mut cs: Vec<Cand> = vec![];
    let mut tries = 0;
    let base = if focus || marathon {
        // one operation (rarely two), many different and nearly equal arguments
        let ops: Vec<usize> = (0..crate::ops::OPS.len()).filter(|&i| { let o = &crate::ops::OPS[i]; !o.s.is_empty() && (prop != "C10" && !costly || groups.contains(&o.g)) }).collect();
        let o = &crate::ops::OPS[if duel && !touchy().is_empty() { *r.pick(touchy()) } else { *r.pick(&ops) }];
        Some(o.n)
    } else { None };
    let mut kk = k;
    let mut work = 0;
    while cs.len() < want && tries < want * 4 + 10 && work < total * 2 {
        tries += 1;
        if marathon && tries % 6 == 0 { kk = kit(r, valid); }
        let x = r.below(100);
        let text = match base {
            Some(n) if cs.is_empty() || x < if marathon { 60 } else { 25 } => { let a = args(r, &kk, crate::ops::op(n).s); format!("{} {}", n, a.join(" ")) }
            Some(_) if x < 92 => { let c = r.pick(&cs).text.clone(); mutate(r, &kk, &c) }
            None if cs.is_empty() || x < 45 => gen_op(r, &kk, &groups),
            None if x < 75 => { let c = r.pick(&cs).text.clone(); mutate(r, &kk, &c) }
            _ => { let c = r.pick(&cs).text.clone(); sibling(r, &c) }
        };
        let text = text.trim_end().to_string();
        if cs.iter().any(|c| c.text == text) { continue; }
        let s = if prop == "C03" { solo(memo, &text) } else { solo_upto(memo, &text, cap) };
        work += s.ev.min(cap);
        if s.hang || s.blocked {
            if prop == "C03" { return Gen::Hang(text); }
            continue;
        }
        if s.died() && prop == "C03" { return Gen::Hang(text); }
        if s.crash || s.ev > cap { continue; }
        if marathon && s.ev > 60_000 { continue; }
        cs.push(Cand { text, solo: s });
    }
    if prop == "C12" && r.pct(50) {
        // failed renderings belong to the batch too
        for _ in 0..r.range(1, 4) {
            let l = show_lit(r, &kk);
            let s = solo(memo, &format!("text {}", l));
            if !s.ok() || s.ev > cap { continue; }
            let sp = spec(r, s.out.len());
            cs.push(Cand { text: format!("sink {} {}", l, sp), solo: s });
        }
    }
    if cs.is_empty() { return Gen::Skip; }
    // shared operands
    let mut seen: Vec<(String, Option<usize>)> = vec![];
    let share = r.pct(80);
    for c in cs.iter_mut() {
        let sink = c.text.starts_with("sink ");
        let mut o = vec![];
        for w in c.text.split(' ') {
            let poolable = w.len() < 4000 && matches!(w.get(..2), Some("p=" | "t=" | "P=" | "C=" | "M=" | "L=" | "K=" | "S=" | "n=" | "D=" | "R=" | "v="));
            if !poolable || !share || (sink && w.starts_with("w=")) { o.push(w.to_string()); continue; }
            let at = match seen.iter().find(|s| s.0 == w) {
                Some(s) => s.1,
                None => {
                    let put = sc.pool.len() < 14 && r.pct(60) && { let s = solo(memo, &format!("make {}", w)); s.ok() && !s.refused() && s.ev < 1_000_000 };
                    let at = if put { sc.pool.push(w.to_string()); Some(sc.pool.len() - 1) } else { None };
                    seen.push((w.to_string(), at));
                    at
                }
            };
            o.push(match at { Some(k) => format!("@{}", k), None => w.to_string() });
        }
        c.text = o.join(" ");
    }
    // how likely a call is to come thousands of times
    let rare = if prop == "C02" { 2 } else { 1 } * if marathon { 0 } else if duel && !touchy().is_empty() { 4 } else { 1 };
    let mut huge = matches!(prop, "C02" | "C11" | "C04") && r.pct(1) && r.pct(if duel && !touchy().is_empty() { 100 } else { 20 });
    // who calls what
    let nt = match prop { "C02" => *r.pick(&[1u64, 1, 1, 2, 3]), "C10" => r.below(3) + 1, "C11" => r.below(4) + 1, "C12" => r.below(3) + 1, "C03" => r.below(4) + 2, _ => r.below(5) + 2 } as usize;
    let nt = if prop == "C04" && r.pct(30) { 1 } else { nt };
    let nt = if duel && nt > 1 { *r.pick(&[2, 2, 2, 3, nt]) } else { nt };
    let waves = match prop { "C02" => if r.pct(40) { r.range(2, 8) } else { 1 }, "C11" => if r.pct(40) { r.range(2, 5) } else { 1 }, "C04" | "C12" => if r.pct(30) { r.range(2, 3) } else { 1 }, "C03" => if r.pct(25) { 2 } else { 1 }, _ => if r.pct(10) { 2 } else { 1 } };
    let maxops = match prop { "C12" => r.range(1, 12), "C02" => r.range(8, 120), _ => r.range(nt as i64, 60) } as usize;
    let maxops = if marathon { want + want / 2 } else { maxops };
    let mut spent = 0u64;
    let mut id = 0u32;
    let mut base_id = 0;
    let mut order = 0usize;
    for wv in 0..waves {
        let mut ts: Vec<TaskSpec> = (0..nt).map(|i| TaskSpec { id: base_id + i, ops: vec![] }).collect();
        let quota = (maxops / waves as usize).max(nt);
        let mut fails = 0;
        let mut n = 0;
        while n < quota && fails < 30 {
            let c = if marathon && order < cs.len() { order += 1; &cs[order - 1] } else { let m = r.below(cs.len() as u64) as usize; let m2 = r.below(cs.len() as u64) as usize; &cs[if cs[m].solo.ev > 300_000 { m2 } else { m }] };
            if spent + c.solo.ev > total { fails += 1; continue; }
            spent += c.solo.ev;
            id += 1; n += 1;
            let k = if n <= nt { n - 1 } else { r.below(nt as u64) as usize };
            ts[k].ops.push(OpSpec { id, text: c.text.clone(), fault: Fault::None });
            // the same again, or with a fault first
            let burst = if c.solo.ev > 20_000 { 0 } else if prop == "C04" && c.solo.refused() && r.pct(20) { r.logu(100) } else if r.pct(2) { r.logu(70) } else { 0 };
            for _ in 0..burst { if spent + c.solo.ev <= total { spent += c.solo.ev; id += 1; ts[k].ops.push(OpSpec { id, text: c.text.clone(), fault: Fault::None }); } }
            // now and then very long repetitions, or long sweeps over nearly equal arguments, of cheap calls
            if !matches!(prop, "C03" | "C12") && c.solo.ev < 6_000 && c.solo.narr < 3 && !c.text.starts_with("sink ") && (huge || r.pct(rare)) {
                let cost = 2 * (c.solo.ev + 1_500);
                let cap = *r.pick(&[300u64, 300, 1_200, 1_200, 5_000]);
                let m = if huge { (600_000_000 / cost).min(66_500) } else { (total.saturating_sub(spent).min(8_000_000) / cost).min(cap) };
                let flat = expand(&c.text, &sc.pool);
                let sweep = !huge && r.pct(60) && !sweepable(&flat).is_empty();
                if m > 20 {
                    let m = if r.pct(70) { m } else { r.below(m) + 1 };
                    let m = if sweep { m.min(4_000) } else { m };
                    if huge { huge = false; } else { spent += m * cost; }
                    id += 1;
                    ts[k].ops.push(OpSpec { id, text: if sweep { format!("~{}.{} {}", m, r.below(100_000), flat) } else { format!("*{} {}", m, c.text) }, fault: Fault::None });
                    for _ in 0..r.below(3) { let c = r.pick(&cs); if spent + c.solo.ev <= total { spent += c.solo.ev; id += 1; ts[k].ops.push(OpSpec { id, text: c.text.clone(), fault: Fault::None }); } }
                }
            }
            if r.pct(15) && spent + c.solo.ev <= total { spent += c.solo.ev; id += 1; n += 1; ts[k].ops.push(OpSpec { id, text: c.text.clone(), fault: Fault::None }); }
        }
        ts.retain(|t| !t.ops.is_empty());
        if prop == "C03" && (wv as usize) * nt + nt < 30 { base_id += nt; }
        if !ts.is_empty() { sc.waves.push(ts); }
    }
    if sc.waves.is_empty() { return Gen::Skip; }
    sc.policy = policy(r);
    if duel && nt > 1 && r.pct(60) { sc.policy = Policy::Guard(20 + r.below(60)); }
    // a long run is not cut into more than some ten thousand pieces
    let least = spent / 20_000;
    match &mut sc.policy { Policy::Slice(m) | Policy::Prio(m) => *m = (*m).max(least), _ => {} }
    let pool = sc.pool.clone();
    let lookup = |t: &str| cs.iter().find(|c| c.text == split_many(t).1 || matches!(split_many(t).0, Many::Sweep(..)) && expand(&c.text, &pool) == split_many(t).1).map(|c| c.solo.clone()).unwrap();
    match prop {
        "C03" => {
            // some callers are suspended for good somewhere inside a call; at least one is not
            for w in sc.waves.iter_mut() {
                if w.len() < 2 { continue; }
                let victims = 1 + r.below((w.len() - 1) as u64) as usize;
                for v in 0..victims {
                    let t = &mut w[v];
                    let c: Vec<usize> = (0..t.ops.len()).filter(|&i| { let s = lookup(&t.ops[i].text); s.narr == 0 && s.ev > 0 }).collect();
                    if c.is_empty() { continue; }
                    let i = *r.pick(&c);
                    let s = lookup(&t.ops[i].text);
                    t.ops[i].fault = match r.below(10) { 0..=3 => Fault::Stall(1 + r.below(s.ev)), 4..=6 if !s.rare.is_empty() => Fault::Stall((r.pick(&s.rare).2 + r.below(9)).max(1)), 7..=8 => Fault::StallNovel, _ => Fault::Stall(r.logu(s.ev)) };
                }
            }
        }
        "C04" => {
            let p = if r.pct(15) { 95 } else { r.range(10, 60) as u64 };
            for o in sc.waves.iter_mut().flatten().flat_map(|t| t.ops.iter_mut()) {
                if !r.pct(p) || matches!(split_many(&o.text).0, Many::Sweep(..)) { continue; }
                let s = lookup(&o.text);
                if s.allocs == 0 { continue; }
                o.fault = match r.below(10) {
                    0..=4 => Fault::Oom(1 + r.below(s.allocs)),
                    5..=6 if !s.rare.is_empty() => Fault::Oom(r.pick(&s.rare).3 + 1 + r.below(3)),
                    7..=8 => Fault::OomNovel,
                    _ => Fault::Oom(s.allocs - r.below(s.allocs.min(6))),
                };
            }
        }
        "C10" => {
            let per: u64 = sc.ops().map(|o| lookup(&o.text).narr).sum::<u64>();
            if per == 0 && r.pct(90) { return Gen::Skip; }
            let per = per.max(1);
            let errs = [-(libc::EPIPE as i64), -(libc::ENOSPC as i64), -(libc::EIO as i64), -(libc::EAGAIN as i64), -(libc::EBADF as i64)];
            match r.below(4) {
                0 => { sc.tail = if r.pct(12) { crate::rt::TAKES_NOTHING } else { *r.pick(&errs) }; sc.tail_from = r.below(per + 1); }
                1 => { sc.tail = 1 + if r.pct(70) { r.below(20) } else { r.logu(4000) } as i64; sc.tail_from = r.below(per + 1); }
                _ => {}
            }
            let n = r.range(if sc.tail == 0 { 1 } else { 0 }, 8);
            for _ in 0..n {
                let at = r.below(per + 2);
                let e = match r.below(16) { 0..=2 => -(libc::EINTR as i64), 3 => crate::rt::TAKES_NOTHING, 4 | 5 => { let m = if r.pct(50) { 9 } else { 4000 }; 1 + r.logu(m) as i64 } _ => *r.pick(&errs) };
                sc.out.push((at, e));
            }
        }
        "C11" => {
            sc.env = Env { entropy: r.u() >> 1, heap: r.below(1 << 16) as usize, stack: r.below(4000) as usize, cpus: *r.pick(&[1usize, 2, 3, 7, 16, 64]), jumpy: r.pct(60), envrand: true, seed: 1 + (r.u() >> 8) };
            if r.pct(50) { sc.policy = Policy::Boundary(r.below(70) + 30); }
        }
        "C12" => {
            // sometimes nobody takes what the batch prints
            if r.pct(50) && sc.ops().any(|o| lookup(&o.text).narr > 0) { sc.tail = *r.pick(&[-(libc::EPIPE as i64), -(libc::ENOSPC as i64), -(libc::EIO as i64), -(libc::EAGAIN as i64)]); sc.tail_from = r.below(3); }
            sc.reps = if heavy { 16 } else { *r.pick(&[32u32, 64]) }; sc.policy = if r.pct(60) { Policy::Boundary(40) } else { sc.policy }; }
        "C02" => { if r.pct(60) { sc.policy = Policy::Boundary(r.below(70) + 30); } }
        _ => {}
    }
    odd_places(prop, r, &mut sc);
    Gen::Run(sc)
}
/// Now and then a call is made by a destructor while the thread unwinds, or while the thread ends.
fn odd_places(prop: &str, r: &mut Rng, sc: &mut Scenario) {
    if prop == "C03" || !r.pct(12) { return; }
    let (up, at_end) = (if r.pct(60) { r.range(3, 30) as u64 } else { 0 }, r.pct(60));
    for t in sc.waves.iter_mut().flatten() {
        let n = t.ops.len();
        for (i, o) in t.ops.iter_mut().enumerate() {
            if o.text.starts_with("sink ") || o.text.starts_with(['*', '~']) || o.fault != Fault::None { continue; }
            if at_end && i + 2 >= n && r.pct(60) { o.text.insert(0, '$'); } else if r.pct(up) { o.text.insert(0, '^'); }
        }
    }
}
// ---------------------------------------------------------------- C09
fn show_lit(r: &mut Rng, k: &Kit) -> String {
    match r.below(12) {
        0..=3 => show_pol(r.pick(&k.xs)),
        4 => show_pol(r.pick(&k.qs)),
        5 => show_pol(r.pick(&k.us)),
        6 => format!("t={}", show_td(r.pick(&k.terms))),
        7 => format!("v={}", show_var(r.pick(&k.vars))),
        8 => { let c = r.below(k.pts.len() as u64) as usize; let p = r.pick(&k.pts[c]); format!("P={},{},{}", p[0], p[1], p[2]) }
        9 => { let c = r.pick(&k.curves); format!("C={},{},{}", c[0], c[1], c[2]) }
        10 => { let c = r.pick(&k.curves); format!("R={},{},{}", c[0], c[1], c[2]) }
        _ => { let c = r.pick(&k.curves); format!("D={},{},{},{}", c[0], c[1], c[2], r.range(0, 6)) }
    }
}
fn spec(r: &mut Rng, len: usize) -> String {
    let io = r.pct(50);
    let (mode, at) = match r.below(20) {
        0..=9 => ("byte", r.below(len as u64 + 2)), 10..=14 => ("call", r.logu(1 + len as u64)), 15 | 16 => ("panic", r.logu(1 + len as u64)), _ => ("none", 0),
    };
    format!("w={}.{}.{}.{}.{}{}", if io { "i" } else { "f" }, mode, at, if io && r.pct(60) { 1 + r.below(9) } else { 0 }, if io && r.pct(40) { 1 + r.below(4) } else { 0 }, if r.pct(12) { ".n" } else { "" })
}
fn sinks(r: &mut Rng, sc: &mut Scenario, memo: &mut Memo) {
    let k = kit(r, true);
    let mut lits: Vec<(String, usize)> = vec![];
    let mut work = 0;
    // now and then texts of many thousand characters
    let large = r.pct(3);
    for i in 0..if large { 2 } else { r.range(2, 8) } {
        let l = if large && i == 0 {
            let n = *r.pick(&[20u64, 100, 300, 600]);
            let mut v = gen_pol(r, n, 60, 40, 40, true);
            if let Some(t) = v.last_mut() { if r.pct(50) { let n = r.range(100, 20_000) as u64; t.c = rand_big(r, n) + b(1); } }
            show_pol(&v)
        } else if r.pct(20) { let n = r.range(3, 14) as u64; show_pol(&gen_pol(r, n, 6, 6, 6, true)) } else { show_lit(r, &k) };
        let s = solo(memo, &format!("text {}", l));
        if !s.ok() || s.refused() || s.ev > if large { 40_000_000 } else { 3_000_000 } { continue; }
        work += s.ev;
        lits.push((l, s.out.len()));
    }
    if lits.is_empty() { lits.push(("p=1:1:0:0:-".into(), 1)); }
    let mut words = vec![];
    for (l, n) in &lits { if r.pct(70) { sc.pool.push(l.clone()); words.push((format!("@{}", sc.pool.len() - 1), *n)); } else { words.push((l.clone(), *n)); } }
    let nt = r.range(1, 4) as usize;
    let mut id = 0;
    let mut w = vec![];
    for t in 0..nt {
        let mut ops = vec![];
        for _ in 0..if large { r.range(2, 6) } else { r.range(4, 20) } {
            id += 1;
            let (l, n) = r.pick(&words).clone();
            let text = if r.pct(10) && !l.starts_with('@') { format!("text {}", l) } else { format!("sink {} {}", l, spec(r, n)) };
            ops.push(OpSpec { id, text, fault: Fault::None });
        }
        w.push(TaskSpec { id: t, ops });
    }
    sc.waves.push(w);
    sc.policy = if r.pct(50) { Policy::Slice(4 + r.logu(5000)) } else { policy(r) };
    // a long run is not cut into more than some ten thousand pieces
    let least = work * sc.ops().count() as u64 / lits.len() as u64 / 20_000;
    match &mut sc.policy { Policy::Slice(m) | Policy::Prio(m) => *m = (*m).max(least), _ => {} }
}
// ---------------------------------------------------------------- runs on long-lived objects
fn deal(r: &mut Rng, sc: &mut Scenario, ops: Vec<(String, bool)>, maxt: i64, oom: u64) {
    let nt = r.range(1, maxt) as usize;
    let nw = if r.pct(20) { 2 } else { 1 };
    let per = ops.len() / nw + 1;
    let mut id = 0;
    for chunk in ops.chunks(per) {
        let mut w: Vec<TaskSpec> = (0..nt).map(|t| TaskSpec { id: t, ops: vec![] }).collect();
        let run = r.range(1, 8) as u64; // consecutive operations tend to stay with one task
        let mut cur = 0;
        for (text, faulty) in chunk {
            id += 1;
            if r.below(run) == 0 { cur = r.below(nt as u64) as usize; }
            let fault = if *faulty && r.pct(oom) { Fault::Oom(r.logu(200)) } else { Fault::None };
            w[cur].ops.push(OpSpec { id, text: text.clone(), fault });
        }
        w.retain(|t| !t.ops.is_empty());
        sc.waves.push(w);
    }
    sc.policy = match r.below(11) { 10 => Policy::Guard(20 + r.below(60)), 0..=2 => Policy::Boundary(r.below(80) + 20), 3..=6 => Policy::Slice(4 + r.logu(20_000)), _ => Policy::Prio(8 + r.logu(20_000)) };
}
/// small polynomials over few monomials, so that terms meet and cancel
fn small_pol(r: &mut Rng, fl: u64) -> Vec<Td> {
    if fl & 8 != 0 && r.pct(40) { let n = r.range(30, 200) as u64; let (x, y, q) = [(40, 6, 0), (0, 0, 150), (12, 5, 3), (60, 0, 3)][(fl & 3) as usize]; return gen_pol(r, n, x, y, q, fl & 4 != 0); }
    if r.pct(3) { let n = r.range(4, 26) as u64; let (x, y, q) = [(9, 4, 0), (0, 0, 20), (4, 3, 3), (20, 0, 2)][(fl & 3) as usize]; return gen_pol(r, n, x, y, q, fl & 4 != 0); }
    let n = r.below(5);
    let mut v = vec![];
    for _ in 0..n { v.push(small_td(r, fl)); }
    norm(v)
}
fn small_td(r: &mut Rng, fl: u64) -> Td {
    let c = match r.below(12) { 0..=3 => b(1), 4 | 5 => b(-1), 6 | 7 => b(r.range(2, 12)), 8 | 9 => b(-r.range(2, 12)), 10 => rand_big(r, 70) + b(1), _ => b(r.range(-60, 60)) };
    let c = if c == b(0) { b(6) } else { c };
    let z = BigInt::from(0);
    let _ = z;
    let v = if fl & 4 != 0 && r.pct(25) { Some((r.range(0, 1) as i32, r.range(0, 1) as i32)) } else { None };
    match fl & 3 {
        0 => Td { c, x: r.range(0, 3) as i32, y: r.range(0, 2) as i32, q: 0, v },
        1 => Td { c, x: 0, y: 0, q: r.range(-1, 4) as i32, v },
        2 => Td { c, x: r.range(0, 2) as i32, y: r.range(0, 1) as i32, q: r.range(0, 1) as i32, v },
        _ => Td { c, x: r.range(0, 1) as i32, y: 0, q: r.range(0, 2) as i32, v },
    }
}
fn poly(r: &mut Rng, sc: &mut Scenario) {
    let n = r.range(2, 5) as u64;
    // now and then polynomials of a hundred terms or more
    let large = r.pct(1);
    sc.head.push(format!("poly {}{}", n, if large { " large" } else { "" }));
    let fl = r.below(8) + if large { 8 } else { 0 };
    let mut ops: Vec<(String, bool)> = vec![];
    for d in 0..n { ops.push((format!("set {} {}", d, show_pol(&small_pol(r, fl))), false)); }
    let m = if large { r.range(5, 16) } else { r.range(6, 70) };
    let theme = r.below(4);
    for _ in 0..m {
        let (d, s, t) = (r.below(n), r.below(n), r.below(n));
        let f = r.below(4);
        let td = |r: &mut Rng| format!("t={}", show_td(&small_td(r, fl)));
        let md = |r: &mut Rng| if r.pct(10) { *r.pick(&[0i64, -5, -1]) } else { *r.pick(&[2i64, 3, 5, 7, 10, 1, 12, 53, 65537]) };
        let quot = |r: &mut Rng| format!("{} {} {} {}", r.below(5), r.below(3), r.below(3), r.range(-1, 1));
        let x = if theme == 0 { 50 + r.below(50) } else { r.below(100) };
        let o = match x {
            0..=7 => format!("set {} {}", d, show_pol(&small_pol(r, fl))),
            8..=13 => format!("copy {} {}", d, s),
            14..=16 => format!("neg {} {}", d, s),
            17..=21 => format!("add {} {} {} {}", d, s, t, f),
            22..=26 => format!("sub {} {} {} {}", d, s, t, f),
            27..=32 => format!("mul {} {} {} {}", d, s, t, f),
            33..=37 => { let o = *r.pick(&["pt+", "pt-", "pt*", "tp+", "tp-", "tp*"]); format!("{} {} {} {}", o, d, s, td(r)) }
            38 | 39 => { let a = small_td(r, fl); let mut c = a.clone(); match r.below(4) { 0 => c.c = -c.c, 1 => {} , 2 => c = small_td(r, fl), _ => c.c += 1 } if c.c == b(0) { c.c = b(1); } format!("{} {} t={} t={}", if r.pct(50) { "tt+" } else { "tt-" }, d, show_td(&a), show_td(&c)) }
            40..=44 => format!("div {} {} {} {}", d, s, quot(r), r.below(3)),
            45 | 46 => format!("pow {} {} {}", d, s, r.below(4)),
            47..=49 => format!("rem {} {} {} {}", d, s, md(r), r.below(2)),
            50..=57 => format!("+= {} {}", d, s),
            58..=65 => format!("-= {} {}", d, s),
            66..=71 => format!("*= {} {}", d, s),
            72..=77 => { let mut t = small_td(r, fl); if r.pct(10) { t.c = b(0); } format!("+=t {} t={}", d, show_td(&t)) }
            78..=84 => format!("{} {} - {}", if r.pct(50) { "/=" } else { "/=1" }, d, quot(r)),
            85..=88 => format!("/=p {} {}", d, s),
            89..=91 => format!("/=v {} {} {}", d, r.below(2), r.below(2)),
            92..=96 => format!("mod {} {}", d, md(r)),
            _ => format!("omit {} {}", d, r.range(-1, 4)),
        };
        // a copy first, now and then: copies must not move with the original
        if r.pct(6) { ops.push((format!("copy {} {}", s, d), false)); }
        ops.push((o, true));
    }
    let oom = *r.pick(&[0u64, 0, 10, 30]);
    deal(r, sc, ops, 3, oom);
    if large {
        for o in sc.waves.iter_mut().flatten().flat_map(|t| t.ops.iter_mut()) { if let Fault::Oom(_) = o.fault { o.fault = Fault::Oom(r.logu(30_000)); } }
        match &mut sc.policy { Policy::Slice(m) | Policy::Prio(m) => *m = (*m).max(5_000), _ => {} }
    }
}
fn curve(r: &mut Rng, sc: &mut Scenario) {
    let n = r.range(1, 3) as u64;
    sc.head.push(format!("curve {}", n));
    let mut ops = vec![];
    let p0 = if r.pct(3) { *r.pick(&[61i64, 67, 97, 101, 127, 131, 211, 257]) } else { *r.pick(&[5i64, 7, 11, 13, 17, 19, 23, 29, 31, 37, 3, 2, 43, 53]) };
    let mk = |r: &mut Rng| {
        let p = if r.pct(70) { p0 } else { *r.pick(&[5i64, 7, 11, 13]) };
        let lo = if r.pct(25) { -p } else { 0 };
        let hi = if r.pct(25) { 3 * p } else { p - 1 };
        (r.range(lo, hi), r.range(lo, hi), p)
    };
    for d in 0..n { let c = mk(r); ops.push((format!("{} {} {},{},{}", if r.pct(60) { "new" } else { "raw" }, d, c.0, c.1, c.2), false)); }
    let many = if p0 < 30 && r.pct(1) { r.range(20, 150) } else { r.range(2, 14) };
    for _ in 0..many {
        let (d, s) = (r.below(n), r.below(n));
        ops.push(match r.below(20) {
            0 => { let c = mk(r); (format!("{} {} {},{},{}", if r.pct(60) { "new" } else { "raw" }, d, c.0, c.1, c.2), true) }
            1..=3 => (format!("clone {} {}", d, s), true),
            4..=10 => (format!("build {}", d), true),
            11..=16 => (format!("edit {} {}", d, r.pick(&["clear", "pop", "dup", "inf", "junk", "rev", "half", "swap", "first"])), false),
            _ => (format!("read {}", d), false),
        });
    }
    let oom = *r.pick(&[0u64, 20, 50]);
    deal(r, sc, ops, 3, oom);
    // a build has many more allocations than the rest
    for o in sc.waves.iter_mut().flatten().flat_map(|t| t.ops.iter_mut()) { if let Fault::Oom(_) = o.fault { if o.text.starts_with("build") || o.text.starts_with("new") { o.fault = Fault::Oom(r.logu(8000)); } } }
}
fn sum(r: &mut Rng, sc: &mut Scenario) {
    let mut big = false;
    let (a, bb, p, pts): (BigInt, BigInt, BigInt, Vec<(BigInt, BigInt)>) = if r.pct(4) {
        big = true;
        let p: BigInt = (BigInt::from(1) << 256) - (BigInt::from(1) << 32) - 977;
        let g = ("55066263022277343669578718895168534326250603453777594175500187360389116729240", "32670510020758816978083085130507043184471273380659243275938904335757337482424");
        (b(0), b(7), p, vec![(g.0.parse().unwrap(), g.1.parse().unwrap())])
    } else if r.pct(6) {
        // a field of middling size: a curve through a chosen point
        big = true;
        let (c, v) = raw_curves(r);
        let (c, v) = (c[0].clone(), v[0].iter().filter(|q| q[2] == b(1)).map(|q| (q[0].clone(), q[1].clone())).collect::<Vec<_>>());
        if v.is_empty() { (b(0), b(4), b(5), vec![(b(0), b(2))]) } else { (c[0].clone(), c[1].clone(), c[2].clone(), v) }
    } else {
        loop {
            let p = if r.pct(70) { *r.pick(&[5i64, 7, 11, 13, 17, 19, 23]) } else { *r.pick(&[29i64, 31, 37, 43, 101, 211, 499]) };
            let mut a = b(r.range(0, p - 1)); let mut c = b(r.range(0, p - 1));
            match r.below(8) { 0 => a = b(0), 1 => c = b(0), _ => {} }
            if !nonsingular(&a, &c, &b(p)) { continue; }
            let v = points_of(&a, &c, p);
            if v.is_empty() { continue; }
            let mut ps: Vec<(BigInt, BigInt)> = vec![];
            for _ in 0..r.range(1, 3) { let q = r.pick(&v); ps.push((b(q.0), b(q.1))); }
            // points of order two are worth having
            if let Some(q) = v.iter().find(|q| q.1 == 0) { if r.pct(60) { ps.push((b(q.0), b(0))); } }
            if r.pct(15) { a = a - b(p); }
            if r.pct(15) { c = c + b(p); }
            break (a, c, b(p), ps);
        }
    };
    let n = r.range(2, 4) as u64;
    let built = !big && p < b(if r.pct(10) { 300 } else { 40 }) && r.pct(50);
    // coordinates need not be reduced
    let loose = !big && r.pct(30);
    sc.head.push(format!("sum {} {},{},{}{}", n, a, bb, p, if built { " built" } else { "" }));
    let mut ops = vec![];
    let m = if big { r.range(3, 8) } else if r.pct(1) { r.range(60, 300) } else { r.range(4, 50) };
    for _ in 0..m {
        let (d, e) = (r.below(n), r.below(n));
        let o = match r.below(20) {
            0..=12 => {
                let q = r.pick(&pts).clone();
                let neg = r.pct(25);
                let y = if neg { (-&q.1).mod_floor(&p) } else { q.1.clone() };
                let k = match r.below(12) { 0..=4 => b(1), 5 => b(-1), 6 => b(0), 7 => b(2), 8 => b(-2), 9 => b(r.range(-30, 30)), 10 => { let m = p.to_i64().unwrap_or(40) + r.range(-3, 3); b(m) } _ => { let k = match r.below(5) { 0 | 1 => rand_big(r, 40), 2 => rand_big(r, if big { 30 } else { 90 }), 3 => (b(1) << *r.pick(&[8usize, 16, 31, 32, 63, 64])) + r.range(-2, 2), _ => b(3) }; k * if r.pct(50) { 1 } else { -1 } } };
                if r.pct(4) { format!("add {} 0,1,0 {} {}", d, k, r.below(5)) } else {
                    let (mut x, mut y) = (q.0.clone(), y);
                    if loose { x += &p * r.range(-1, 2); y += &p * r.range(-1, 2); }
                    format!("add {} {},{},1 {} {}", d, x, y, k, r.below(5))
                }
            }
            13..=16 => format!("merge {} {}", d, e),
            17 => format!("neg {}", d),
            _ => format!("mul {} {}", d, if big { 2 } else { r.range(-6, 9) }),
        };
        ops.push((o, false));
    }
    deal(r, sc, ops, 4, 0);
}
fn crt(r: &mut Rng, sc: &mut Scenario) {
    let bits = *r.pick(&[8u64, 30, 33, 64, 65, 130]);
    let mut ms: Vec<BigInt> = vec![];
    let many = if r.pct(2) { r.range(10, 60) } else { r.range(1, 9) };
    for _ in 0..many {
        let m = match r.below(8) { 0..=3 => b(*r.pick(&[2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31])), 4 => b(*r.pick(&[4i64, 8, 9, 25, 27, 49, 32, 1024])), 5 => b(r.range(2, 1 << 20)), 6 => rand_big(r, bits) + b(2), _ => b(*r.pick(&[65537i64, 2147483647, 4294967311, 10007])) };
        if ms.iter().all(|x| x.gcd(&m) == b(1)) { ms.push(m); }
    }
    if r.pct(5) { ms.push(b(1)); }
    // several integers, by the same moduli
    let nx = *r.pick(&[1usize, 1, 2, 2, 3]);
    let xb = *r.pick(&[6u64, 20, 64, 200]);
    let mut xs: Vec<BigInt> = vec![];
    for i in 0..nx {
        let x: BigInt = rand_big(r, xb) * if r.pct(30) { -1 } else { 1 };
        xs.push(if i > 0 && r.pct(30) { &xs[0] + b(r.range(-3, 4)) * r.pick(&ms) } else { x });
    }
    let n = r.range(1, 4) as u64;
    let mut h = format!("crt {} {}", n, xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    for x in &xs { for m in &ms {
        let mut v = x.mod_floor(m);
        match r.below(10) { 0 => v -= m, 1 => v += m * b(r.range(1, 5)), _ => {} }
        h += &format!(" {}:{}", m, v);
    } }
    sc.head.push(h);
    let shuffle = |r: &mut Rng, v: &mut Vec<usize>| for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j); };
    let mut order: Vec<usize> = (0..ms.len()).collect();
    shuffle(r, &mut order);
    let mut lists: Vec<Vec<(String, bool)>> = vec![];
    let lone = r.pct(30);
    for x in 0..nx {
        if x > 0 && r.pct(50) { shuffle(r, &mut order); }
        let (at, off) = (x as u64 * n, x * ms.len());
        let mut ops = vec![];
        let mut i = 0;
        while i < order.len() {
            let left = order.len() - i;
            let slot = at + r.below(n);
            if left > 1 && !lone && r.pct(35) {
                let c = 2 + r.below(left as u64 - 1) as usize;
                ops.push((format!("batch {} {} {}", slot, r.below(3), order[i..i + c].iter().map(|j| (off + j).to_string()).collect::<Vec<_>>().join(" ")), false));
                i += c;
            } else {
                ops.push((format!("arrive {} {} {}", slot, off + order[i], r.below(2)), false));
                i += 1;
            }
            if r.pct(30) {
                let mut l: Vec<usize> = (0..n as usize).collect();
                shuffle(r, &mut l);
                l.truncate(1 + r.below(n) as usize);
                ops.push((format!("merge {}", l.iter().map(|x| (at + *x as u64).to_string()).collect::<Vec<_>>().join(" ")), false));
            }
        }
        lists.push(ops);
    }
    // one after another, or mixed
    let mut ops = vec![];
    if r.pct(40) { for l in lists { ops.extend(l); } }
    else {
        for l in lists.iter_mut() { l.reverse(); }
        while lists.iter().any(|l| !l.is_empty()) { let k = r.below(nx as u64) as usize; if let Some(o) = lists[k].pop() { ops.push(o); } }
    }
    deal(r, sc, ops, 4, 0);
}
fn builder(r: &mut Rng, sc: &mut Scenario) {
    let n = r.range(1, 4) as u64;
    sc.head.push(format!("builder {}", n));
    let mut ops = vec![];
    for d in 0..n { ops.push((format!("new {}", d), false)); }
    let many = if r.pct(1) { r.range(100, 800) } else { r.range(5, 60) };
    for _ in 0..many {
        let d = r.below(n);
        let o = match r.below(20) {
            0 => format!("new {}", d),
            1 | 2 => format!("copy {} {}", d, r.below(n)),
            3..=12 => {
                let mut s = format!("set {}", d);
                for _ in 0..r.range(1, 4) {
                    let num = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => -r.range(1, 9), 2 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, 65536, 255, 256]), _ => r.range(1, 12) };
                    let big = |r: &mut Rng| match r.below(7) { 0 => b(0), 1 => rand_big(r, 70), 2 => -rand_big(r, 33), 3 if r.pct(40) => { let n = *r.pick(&[31u64, 32, 63, 64, 127, 128, 256, 2000]); let n = (b(1) << n as usize) + r.range(-1, 1); if r.pct(50) { -n } else { n } } _ => b(r.range(-20, 20)) };
                    let idx = |r: &mut Rng| if r.pct(10) { *r.pick(&[i32::MAX as i64, 65535, 65536, 65537, 70000, 255, 256, 1 << 24, 32767, 32768]) } else { r.range(0, 12) };
                    s += &match r.below(9) {
                        0 => format!(" cref {}", big(r)), 1 => format!(" cown {}", big(r)), 2 => format!(" ci32 {}", num(r)), 3 => format!(" x {}", num(r)), 4 => format!(" y {}", num(r)), 5 => format!(" q {}", num(r)),
                        6 => format!(" xyq {}", r.range(-5, 9)),
                        7 => if r.pct(20) { " var -".to_string() } else { format!(" var {}.{}", idx(r), idx(r)) },
                        _ => format!(" ij {}.{}", if r.pct(15) { *r.pick(&[-1, -1, -1, i32::MIN as i64, -65536]) } else { idx(r) }, if r.pct(15) { *r.pick(&[-2, -2, -2, i32::MIN as i64, -65536]) } else { idx(r) }),
                    };
                }
                s
            }
            _ => format!("build {} {}", d, r.below(2)),
        };
        ops.push((o, false));
    }
    deal(r, sc, ops, 3, 0);
}

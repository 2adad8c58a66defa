//! Generators of arguments and operations: small kits of deliberately similar values.
use crate::ops::OPS;
use crate::rt::Rng;
use crate::val::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{ToPrimitive, Zero};

pub fn b(n: i64) -> BigInt { BigInt::from(n) }
pub fn rand_big(r: &mut Rng, bits: u64) -> BigInt {
    let mut n = BigInt::zero();
    for _ in 0..(bits + 31) / 32 { n = (n << 32) + BigInt::from(r.u() as u32); }
    let n: BigInt = n >> ((32 - bits % 32) % 32) as usize;
    n
}
pub const PRIMES: &[i64] = &[5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43];
pub const PMOD: &[i64] = &[53, 61, 101, 103, 127, 211];
pub fn is_prime(n: i64) -> bool { n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0) }

/// all affine points of y^2 = x^3 + a x + b over GF(p), by brute force
pub fn points_of(a: &BigInt, bb: &BigInt, p: i64) -> Vec<(i64, i64)> {
    let a = a.mod_floor(&b(p)).to_i64().unwrap();
    let bb = bb.mod_floor(&b(p)).to_i64().unwrap();
    let mut roots: Vec<Vec<i64>> = vec![vec![]; p as usize];
    for y in 0..p { roots[(y * y % p) as usize].push(y); }
    let mut v = vec![];
    for x in 0..p {
        let c = ((x * x % p) * x + a * x + bb) % p;
        for &y in &roots[c as usize] { v.push((x, y)); }
    }
    v
}
pub fn nonsingular(a: &BigInt, bb: &BigInt, p: &BigInt) -> bool {
    let d: BigInt = b(4) * a * a * a + b(27) * bb * bb;
    !d.mod_floor(p).is_zero()
}
pub struct Kit {
    pub valid: bool,
    pub ints: Vec<BigInt>, pub exps: Vec<BigInt>, pub mods: Vec<BigInt>, pub curves: Vec<[BigInt; 3]>, pub pts: Vec<Vec<[BigInt; 3]>>,
    pub us: Vec<Vec<Td>>, pub zs: Vec<Vec<Td>>, pub qs: Vec<Vec<Td>>, pub xs: Vec<Vec<Td>>, pub terms: Vec<Td>, pub pterms: Vec<Td>,
    pub ones: Vec<Vec<Td>>, pub vars: Vec<Option<(i32, i32)>>, pub crts: Vec<Vec<(BigInt, BigInt)>>, pub mats: Vec<Vec<Vec<BigInt>>>, pub kp: Vec<i32>,
    pub small: Vec<i64>, pub raws: Vec<[BigInt; 3]>, pub rpts: Vec<Vec<[BigInt; 3]>>, pub lz: Vec<i64>,
}
fn near(r: &mut Rng, n: &BigInt) -> BigInt {
    match r.below(9) {
        0 => -n, 1 => n + b(1), 2 => n - b(1), 3 => n + (b(1) << 32), 4 => n + (b(1) << 64), 5 => n * b(10), 6 => n + (b(1) << 31),
        7 => if n.is_even() { n + b(1) } else { n - b(1) }, _ => n + b(256),
    }
}
fn near2(r: &mut Rng, t: &Td, u: bool, m: bool) -> Td {
    let mut t = t.clone();
    match r.below(if u { 2 } else if m { 6 } else { 5 }) {
        0 => t.c = if u { b(1 + (t.c.to_i64().unwrap_or(1) % 49)) } else { near(r, &t.c) },
        1 => t.x += 1, 2 => std::mem::swap(&mut t.x, &mut t.y), 3 => t.y += 1, 4 => t.q += 1,
        _ => t.v = match t.v { None => Some((0, 0)), Some((i, j)) => if r.pct(50) { Some((j, i)) } else { Some((i + 1, j)) } },
    }
    if t.c.is_zero() { t.c = b(7); }
    t
}
pub fn norm(v: Vec<Td>) -> Vec<Td> {
    // keep one term per monomial, so that a literal's text is its value
    let mut o: Vec<Td> = vec![];
    for t in v { if t.c.is_zero() { continue; } if !o.iter().any(|u| (u.x, u.y, u.q, u.v) == (t.x, t.y, t.q, t.v)) { o.push(t); } }
    o
}
fn coef(r: &mut Rng) -> BigInt {
    let c = match r.below(10) { 0 | 1 => b(1), 2 => b(-1), 3 | 4 => b(r.range(2, 9)), 5 | 6 => b(r.range(-50, 50)), 7 => b(r.range(-100000, 100000)), 8 => rand_big(r, 70), _ => -rand_big(r, 40) };
    if c.is_zero() { b(3) } else { c }
}
fn var(r: &mut Rng) -> Option<(i32, i32)> { if r.pct(30) { None } else { Some((r.range(0, 3) as i32, r.range(0, 3) as i32)) } }
pub fn gen_td(r: &mut Rng, x: i64, y: i64, q: i64, v: bool) -> Td {
    Td { c: coef(r), x: r.range(0, x) as i32, y: r.range(0, y) as i32, q: if q == 0 { 0 } else { r.range(-2, q) as i32 }, v: if v { var(r) } else { None } }
}
pub fn gen_pol(r: &mut Rng, n: u64, x: i64, y: i64, q: i64, v: bool) -> Vec<Td> {
    let n = r.below(n + 1);
    norm((0..n).map(|_| gen_td(r, x, y, q, v)).collect())
}
/// coefficients 1..50, or (loose) any, multiples of the moduli among them
fn gen_u(r: &mut Rng, wide: bool, loose: bool) -> Vec<Td> {
    if loose {
        let d = r.range(0, 5) as i32;
        return (0..=d).filter_map(|x| { let c = match r.below(6) { 0 => b(r.range(-60, 60)), 1 => b(*r.pick(PMOD)) * r.range(-2, 2), 2 => rand_big(r, 40), _ => b(r.range(1, 50)) }; if c.is_zero() || r.pct(25) { None } else { Some(Td { c, x, y: 0, q: 0, v: None }) } }).collect();
    }
    let d = r.range(1, if wide { 14 } else { 5 }) as i32;
    let mut v = vec![];
    for x in 0..=d { if x == d || r.pct(70) { v.push(Td { c: b(r.range(1, 50)), x, y: 0, q: 0, v: None }); } }
    v
}
pub fn kit(r: &mut Rng, valid: bool) -> Kit {
    // now and then everything is larger
    let wide = r.pct(8);
    let special = [0i64, 1, 2, 3, 5, 7, 10, -1, -2, -7, 12, 23, 123, 255, 256, 65537, 1 << 31, 1 << 32, (1 << 32) + 5, i64::MAX];
    let mut ints: Vec<BigInt> = vec![];
    for _ in 0..r.range(1, 3) {
        let n = match r.below(6) { 0 => rand_big(r, if wide { 700 } else { 130 }), 1 => -rand_big(r, 66), 2 | 3 => b(r.range(-30, 60)), _ => b(*r.pick(&special)) };
        let m = near(r, &n);
        ints.push(n); if r.pct(70) { ints.push(m); }
    }
    if r.pct(20) { ints.extend([b(1), b(23), b(12), b(3)]); }
    let mut exps = vec![b(r.range(0, 40)), b(r.range(0, 6)), rand_big(r, 64)];
    let e = exps[2].clone() + (b(1) << 64); exps.push(e);
    let mut mods: Vec<BigInt> = vec![b(*r.pick(PMOD)), b(*r.pick(PMOD))];
    if r.pct(20) { mods.push(b(2147483647)); }
    if !valid && r.pct(15) { mods.push(b(*r.pick(&[0i64, 1, 4, 2, -3]))); }
    // curves: near relatives of one curve
    let mut curves: Vec<[BigInt; 3]> = vec![];
    let p = match r.below(100) { 0..=7 => *r.pick(&[53i64, 59, 67, 71, 79]), 8..=12 => *r.pick(&[101i64, 127, 131, 151]), 13 | 14 => *r.pick(&[211i64, 257]), _ => *r.pick(PRIMES) };
    let base = loop { let c = [b(r.range(0, p - 1)), b(r.range(0, p - 1)), b(p)]; if nonsingular(&c[0], &c[1], &c[2]) { break c; } };
    curves.push(base.clone());
    for _ in 0..r.range(1, 3) {
        let mut c = base.clone();
        match r.below(9) {
            0 => c.swap(0, 1),
            1 => c[0] += b(p), 2 => c[1] += b(p), 3 => c[1] -= b(p),
            4 => { let u = b(r.range(2, p - 1)); c[0] = (&c[0] * &u * &u).mod_floor(&c[2]); c[1] = (&c[1] * &u * &u * &u).mod_floor(&c[2]); }
            5 => c[2] = b(*r.pick(PRIMES)),
            6 => c[1] += b(1), 7 => c[0] += b(1) << 64, _ => c[0] = -c[0].clone(),
        }
        if nonsingular(&c[0], &c[1], &c[2]) { curves.push(c); }
    }
    let mut pts = vec![];
    for c in &curves {
        let all = points_of(&c[0], &c[1], c[2].to_i64().unwrap());
        let mut v: Vec<[BigInt; 3]> = vec![[b(0), b(1), b(0)]];
        if !all.is_empty() {
            for _ in 0..3 {
                let (x, y) = *r.pick(&all);
                v.push([b(x), b(y), b(1)]);
                if r.pct(30) { v.push([b(x), (-b(y)).mod_floor(&c[2]), b(1)]); }
                if r.pct(10) { v.push([b(x) + &c[2], b(y), b(1)]); }
            }
        }
        if v.len() > 5 { v.truncate(5); }
        pts.push(v);
    }
    let mut us: Vec<Vec<Td>> = (0..r.range(2, 3)).map(|_| { let loose = r.pct(15); gen_u(r, wide, loose) }).collect();
    if !valid && r.pct(20) { us.push(gen_pol(r, 3, 3, 2, 0, false)); }
    if r.pct(60) { let mut u = us[0].clone(); if !u.is_empty() { let k = r.below(u.len() as u64) as usize; u[k] = near2(r, &u[k], true, false); u = norm(u); us.push(u); } }
    let mut zs: Vec<Vec<Td>> = (0..2).map(|_| if wide { gen_pol(r, 9, 5, 5, 0, false) } else { gen_pol(r, 4, 4, 4, 0, false) }).collect();
    if !zs[0].is_empty() { let mut u = zs[0].clone(); let k = r.below(u.len() as u64) as usize; u[k] = near2(r, &u[k], false, false); u[k].q = 0; u = norm(u); zs.push(u); }
    let mut qs: Vec<Vec<Td>> = (0..2).map(|_| { let v = r.pct(40); if wide { gen_pol(r, 20, 0, 0, 24, v) } else { gen_pol(r, 5, 0, 0, 6, v) } }).collect();
    if !qs[0].is_empty() { let mut u = qs[0].clone(); let k = r.below(u.len() as u64) as usize; u[k].q += 1; u = norm(u); qs.push(u); }
    let mut xs: Vec<Vec<Td>> = (0..2).map(|_| { let v = r.pct(40); if wide { gen_pol(r, 30, 12, 9, 7, v) } else { gen_pol(r, 5, 4, 3, 3, v) } }).collect();
    xs.push(us[0].clone()); xs.push(zs[0].clone()); xs.push(qs[0].clone());
    if !xs[0].is_empty() { let mut u = xs[0].clone(); let k = r.below(u.len() as u64) as usize; u[k] = near2(r, &u[k], false, true); u = norm(u); xs.push(u); }
    let mut terms: Vec<Td> = (0..2).map(|_| { let v = r.pct(40); gen_td(r, 4, 3, 3, v) }).collect();
    let t = near2(r, &terms[0], false, true); terms.push(t);
    if r.pct(20) { let mut t = terms[0].clone(); t.c = b(0); terms.push(t); }
    let pterms: Vec<Td> = (0..2).map(|_| gen_td(r, 3, 3, 0, false)).collect();
    let mut ones: Vec<Vec<Td>> = (0..2).map(|_| vec![gen_td(r, 2, 2, 2, false)]).collect();
    if !valid && r.pct(30) { ones.push(vec![]); }
    let mut vars: Vec<Option<(i32, i32)>> = vec![None];
    for _ in 0..3 { let k = (r.range(0, 3) as i32, r.range(0, 3) as i32); vars.push(Some(k)); if r.pct(40) { vars.push(Some((k.1, k.0))); } }
    if r.pct(20) { vars.extend([Some((1, 23)), Some((12, 3))]); }
    if wide { let k = (r.range(0, 70) as i32, r.range(0, 300) as i32); vars.extend([Some(k), Some((k.0, k.1 + 1)), Some((k.0 + 1, k.1))]); }
    let mut crts = vec![];
    for _ in 0..2 {
        let mut ms = vec![3i64, 5, 7, 11, 13, 2, 17, 10007];
        let mut l = vec![];
        for _ in 0..r.range(1, 4) { let k = r.below(ms.len() as u64) as usize; let m = ms.remove(k); l.push((b(m), b(r.range(-3, m + 2)))); }
        let mut l2 = l.clone(); l2.reverse(); l2[0].1 += 1;
        crts.push(l); if r.pct(60) { crts.push(l2); }
    }
    if r.pct(20) { crts.push(vec![]); }
    if r.pct(5) {
        // moduli of thousands of digits, pairwise coprime
        let mut l: Vec<(BigInt, BigInt)> = vec![];
        let big = r.range(2000, 12000) as usize;
        let m3: BigInt = num_traits::pow(b(3), big / 2);
        for m in [b(1) << big, m3, (b(1) << (big | 1)) - 1] { if r.pct(75) { let c = rand_big(r, 90); l.push((m, c)); } }
        if l.is_empty() || r.pct(30) { l.insert(0, (b(5), b(2))); if l.len() == 1 { l.push((b(1) << big, b(9))); } l.truncate(2); }
        crts.push(l);
    }
    let mut mats = vec![];
    for _ in 0..2 {
        let n = r.range(1, 3) as usize;
        let mut m: Vec<Vec<BigInt>> = (0..n).map(|i| (0..n + 1).map(|j| if i == j { b(r.range(1, 9)) } else { b(r.range(-9, 9)) }).collect()).collect();
        mats.push(m.clone());
        let i = r.below(n as u64) as usize; m[i][n] += 1; mats.push(m);
    }
    let (raws, rpts) = raw_curves(r);
    let kp = if wide { vec![2, 7, 11] } else { vec![2, 3, 5] };
    let lz = if wide { vec![5i64, 7, 11, 13] } else { vec![5, 7] };
    let small = vec![r.range(-3, 12), r.range(0, 12), r.range(0, 5)];
    Kit { valid, ints, exps, mods, curves, pts, us, zs, qs, xs, terms, pterms, ones, vars, crts, mats, kp, small, raws, rpts, lz }
}
pub fn mod_pow(a: &BigInt, e: &BigInt, p: &BigInt) -> BigInt { a.mod_floor(p).modpow(e, p) }
/// Fields too large for a list of points: curves through a chosen point, and relatives sharing the point or the numbers.
pub const BIGP: &[&str] = &["65537", "2147483647", "4294967291", "4294967311", "2305843009213693951", "18446744073709551557", "170141183460469231731687303715884105727"];
pub fn raw_curves(r: &mut Rng) -> (Vec<[BigInt; 3]>, Vec<Vec<[BigInt; 3]>>) {
    let (mut cs, mut ps) = (vec![], vec![]);
    let p: BigInt = r.pick(BIGP).parse().unwrap();
    let (x, y) = (rand_big(r, 130).mod_floor(&p), rand_big(r, 130).mod_floor(&p));
    for i in 0..r.range(2, 3) {
        let p: BigInt = if i == 2 { r.pick(BIGP).parse().unwrap() } else { p.clone() };
        let a = if r.pct(20) { b(0) } else { rand_big(r, 100).mod_floor(&p) };
        let s: BigInt = &y * &y - &x * &x * &x - &a * &x;
        let c = s.mod_floor(&p);
        if !nonsingular(&a, &c, &p) { continue; }
        let mut v = vec![[b(0), b(1), b(0)], [x.clone(), y.clone(), b(1)], [x.clone(), (-&y).mod_floor(&p), b(1)]];
        // twice the point
        let inv = mod_pow(&(&y * 2), &(&p - 2), &p);
        if !inv.is_zero() {
            let s: BigInt = (&x * &x * 3 + &a) * inv;
            let m = s.mod_floor(&p);
            let s: BigInt = &m * &m - &x * 2;
            let x2 = s.mod_floor(&p);
            let s: BigInt = &m * (&x - &x2) - &y;
            let y2 = s.mod_floor(&p);
            v.push([x2, y2, b(1)]);
        }
        cs.push([a, c, p]); ps.push(v);
    }
    if cs.is_empty() { cs.push([b(2), b(3), b(65537)]); ps.push(vec![[b(0), b(1), b(0)]]); }
    (cs, ps)
}
fn td(t: &Td) -> String { format!("t={}", show_td(t)) }
fn tri(k: &str, c: &[BigInt; 3]) -> String { format!("{}={},{},{}", k, c[0], c[1], c[2]) }
pub fn args(r: &mut Rng, k: &Kit, sig: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut cur = 0usize;
    let mut raw = false;
    let n = |v: &BigInt| format!("n={}", v);
    for ch in sig.chars() {
        let s = match ch {
            'I' => n(r.pick(&k.ints)),
            'N' => n(r.pick(&k.exps)),
            'e' => if sig == "Ie" && r.pct(10) {
                // exponents of any size, where the power stays small
                o.pop(); o.push(n(&b(r.range(-1, 1))));
                n(&b(*r.pick(&[1 << 30, (1 << 31) - 1, (1 << 30) + 1, (1 << 30) - 1, 65536, 255, 1 << 20, 1000003])))
            } else { n(&b(r.range(0, 9))) },
            'h' => n(&b(if !k.valid && r.pct(4) { -1 } else { r.range(0, 3) })),
            'E' => n(&b(r.range(0, 5))),
            'M' => n(r.pick(&k.mods)),
            'X' => show_pol(r.pick(&k.xs)),
            'U' => show_pol(r.pick(&k.us)),
            'u' => show_pol(if r.pct(15) { r.pick(&k.xs) } else { r.pick(&k.us) }),
            'Q' => show_pol(r.pick(&k.qs)),
            'Z' => show_pol(r.pick(&k.zs)),
            '1' => show_pol(r.pick(&k.ones)),
            'T' => td(r.pick(&k.terms)),
            't' => td(r.pick(&k.pterms)),
            'V' => format!("v={}", show_var(r.pick(&k.vars))),
            'v' => { let p = 3; if !k.valid && r.pct(10) { "v=9.9".into() } else { format!("v={}.{}", r.range(0, p - 1), p - 1) } }
            'c' => { cur = r.below(k.curves.len() as u64) as usize; tri("C", &k.curves[cur]) }
            'G' => tri("P", r.pick(if raw { &k.rpts[cur] } else { &k.pts[cur] })),
            'B' => if r.pct(50) { let i = r.below(k.pts.len() as u64) as usize; tri("P", r.pick(&k.pts[i])) } else { format!("P={},{},1", r.pick(&k.ints), r.pick(&k.ints)) },
            'C' => {
                let c = r.pick(&k.curves).clone();
                let p = if !k.valid && r.pct(8) { b(*r.pick(&[9i64, 15, 1, 0, 21, -7])) } else { c[2].clone() };
                o.push(n(&c[0])); o.push(n(&c[1])); n(&p)
            }
            'L' => { let l = r.pick(&k.crts); if l.is_empty() { "L=0".into() } else { format!("L={}", l.iter().map(|(l, r)| format!("{}:{}", l, r)).collect::<Vec<_>>().join(";")) } }
            'S' => {
                let mut m = r.pick(&k.mats).clone();
                if !k.valid && r.pct(8) { for x in m[0].iter_mut() { *x = b(0); } }
                format!("M={}", m.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"))
            }
            'l' => n(&b(if !k.valid && r.pct(10) { 4 } else { *r.pick(&[2i64, 3, 5]) })),
            '2' => n(&b(if !k.valid && r.pct(5) { 4 } else if r.pct(10) { 3 } else { 2 })),
            'D' => n(&b(if !k.valid && r.pct(5) { -1 } else { r.range(0, 5).max(if k.valid { 1 } else { 0 }) })),
            'd' => n(&b(r.range(0, 8))),
            'o' => n(&b(r.range(0, 5))),
            'g' => n(&b(if r.pct(70) { *r.pick(&k.small) } else { r.range(-3, 12) })),
            'z' => n(&b(*r.pick(&k.lz))),
            'r' => { raw = true; cur = r.below(k.raws.len() as u64) as usize; tri("R", &k.raws[cur]) }
            'k' => format!("K={}", r.pick(&k.kp)),
            's' => "S=".into(),
            _ => panic!("signature {}", ch),
        };
        o.push(s);
    }
    o
}
/// Groups and how often a run draws on them.
pub const GROUPS: &[(&str, u64)] = &[("int", 10), ("crt", 7), ("qser", 5), ("term", 10), ("poly", 16), ("pmod", 12), ("divpol", 9), ("curve", 16), ("secp", 3), ("modpol", 3), ("schoof", 2), ("linear", 6), ("conv", 7)];
pub fn pick_groups(r: &mut Rng, n: usize) -> Vec<&'static str> {
    let tot: u64 = GROUPS.iter().map(|g| g.1).sum();
    let mut v = vec![];
    while v.len() < n {
        let mut k = r.below(tot);
        for g in GROUPS { if k < g.1 { if !v.contains(&g.0) { v.push(g.0); } break; } k -= g.1; }
    }
    v
}
pub fn gen_op(r: &mut Rng, k: &Kit, groups: &[&str]) -> String {
    let c: Vec<usize> = (0..OPS.len()).filter(|&i| groups.contains(&OPS[i].g)).collect();
    let o = &OPS[*r.pick(&c)];
    let a = args(r, k, o.s);
    let mut s = o.n.to_string();
    for x in a { s.push(' '); s += &x; }
    s
}
/// Only 0, 1 and -1 can be raised to any power.
pub fn tame(op: &str) -> String {
    let mut w: Vec<&str> = op.split(' ').collect();
    if w.len() == 3 && crate::ops::op(w[0]).s == "Ie" && !matches!(w[1], "n=0" | "n=1" | "n=-1") && w[2].len() > 4 { w[2] = "n=7"; }
    w.join(" ")
}
/// The same arguments with another operation of the same signature, if there is one.
pub fn sibling(r: &mut Rng, op: &str) -> String {
    let (n, rest) = op.split_once(' ').unwrap_or((op, ""));
    let me = crate::ops::op(n);
    let c: Vec<usize> = (0..OPS.len()).filter(|&i| OPS[i].s == me.s && OPS[i].g == me.g && OPS[i].n != n).collect();
    if c.is_empty() { return op.to_string(); }
    let m = OPS[*r.pick(&c)].n;
    if rest.is_empty() { m.to_string() } else { format!("{} {}", m, rest) }
}

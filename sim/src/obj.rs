//! Long-lived objects updated by tasks in turns, each next to an independent reference model.
use crate::exec::lib;
use crate::gen::points_of;
use crate::rt::*;
use crate::scen::Scenario;
use crate::val::*;
use ellipticcurve::bigint::{chinese_remainder, ModResult, Power};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;
use std::sync::Mutex;

// ------------------------------------------------------------ C05 model: exact sparse polynomials
type Mono = (i32, i32, i32, Option<(i32, i32)>);
pub type Mp = BTreeMap<Mono, BigInt>;
fn m_of(v: &[Td]) -> Mp { let mut m = Mp::new(); for t in v { acc(&mut m, (t.x, t.y, t.q, t.v), &t.c); } m }
fn acc(m: &mut Mp, k: Mono, c: &BigInt) { let e = m.entry(k).or_insert_with(BigInt::zero); *e += c; if e.is_zero() { m.remove(&k); } }
fn m_add(a: &Mp, b: &Mp, s: i32) -> Mp { let mut m = a.clone(); for (k, c) in b { acc(&mut m, *k, &(c * s)); } m }
fn m_mul(a: &Mp, b: &Mp) -> Option<Mp> {
    let mut m = Mp::new();
    for (k, c) in a { for (l, d) in b {
        if k.3.is_some() && l.3.is_some() { return None; }
        acc(&mut m, (k.0 + l.0, k.1 + l.1, k.2 + l.2, k.3.or(l.3)), &(c * d));
    } }
    Some(m)
}
fn m_of_pol(p: &Polynomial) -> Result<Mp, String> {
    let mut m = Mp::new();
    for (k, c) in p.terms.iter() {
        let t = td_of(k, c);
        if t.c.is_zero() { return Err(format!("a term with coefficient zero: {}", show_td(&t))); }
        if m.insert((t.x, t.y, t.q, t.v), t.c.clone()).is_some() { return Err(format!("two terms with the same monomial: {}", show_td(&t))); }
    }
    Ok(m)
}
fn m_show(m: &Mp) -> String { show_pol(&m.iter().map(|(k, c)| Td { c: c.clone(), x: k.0, y: k.1, q: k.2, v: k.3 }).collect::<Vec<_>>()) }
fn m_size(m: &Mp) -> u64 { m.values().map(|c| 8 + c.bits() as u64).sum() }

// ------------------------------------------------------------ C07 model: the group law on affine points
type Gp = Option<(BigInt, BigInt)>;
fn inv(a: &BigInt, p: &BigInt) -> BigInt {
    let (mut r0, mut r1, mut s0, mut s1) = (a.mod_floor(p), p.clone(), BigInt::one(), BigInt::zero());
    while !r1.is_zero() { let q = &r0 / &r1; let t = &r0 - &q * &r1; r0 = r1; r1 = t; let t = &s0 - &q * &s1; s0 = s1; s1 = t; }
    s0.mod_floor(p)
}
pub fn g_add(a: &BigInt, p: &BigInt, u: &Gp, v: &Gp) -> Gp {
    let (u, v) = match (u, v) { (None, x) | (x, None) => return x.clone(), (Some(u), Some(v)) => (u, v) };
    let m = if u.0 == v.0 {
        if (&u.1 + &v.1).mod_floor(p).is_zero() { return None; }
        (&u.0 * &u.0 * 3 + a) * inv(&(&u.1 * 2), p)
    } else { (&v.1 - &u.1) * inv(&(&v.0 - &u.0), p) };
    let x: BigInt = (&m * &m - &u.0 - &v.0).mod_floor(p);
    let y: BigInt = (&m * (&u.0 - &x) - &u.1).mod_floor(p);
    Some((x, y))
}
pub fn g_neg(p: &BigInt, u: &Gp) -> Gp { u.as_ref().map(|u| (u.0.clone(), (-&u.1).mod_floor(p))) }
pub fn g_mul(a: &BigInt, p: &BigInt, u: &Gp, n: &BigInt) -> Gp {
    let mut b = if n.is_negative() { g_neg(p, u) } else { u.clone() };
    let mut e = n.abs(); let mut r = None;
    while !e.is_zero() { if e.is_odd() { r = g_add(a, p, &r, &b); } b = g_add(a, p, &b, &b); e >>= 1; }
    r
}
fn g_of(p: &BigInt, q: &ECPoint) -> Gp { if q.is_infinity() { None } else { Some((q.x.mod_floor(p), q.y.mod_floor(p))) } }
fn g_show(g: &Gp) -> String { match g { None => "O".into(), Some((x, y)) => format!("({}, {})", x, y) } }

pub enum Slot {
    Poly(Polynomial, Mp),
    /// curve, the list as last left, whether the last build was finished and nothing edited since
    Curve(Option<EllipticCurve>, Vec<ECPoint>),
    Sum(ECPoint, Gp),
    Part(Option<(ModResult, Vec<BigInt>)>),
    Build(Option<(TermBuilder, Td)>),
}
pub struct World { kind: String, large: bool, slots: Vec<Mutex<Slot>>, ec: Option<EllipticCurve>, xs: Vec<BigInt>, per: usize, residues: Vec<(BigInt, BigInt)>, arm: Vec<std::cell::Cell<u64>>, terms: Mutex<Vec<(Term, Td)>> }
unsafe impl Sync for World {}

fn nums(s: &str) -> Vec<BigInt> { s.split(',').map(|x| x.parse().unwrap()).collect() }
fn td_eq(t: &Term, d: &Td) -> bool { td_of(&t.monomial, &t.coef) == *d }

impl World {
    pub fn new(sc: &Scenario) -> World {
        let h: Vec<&str> = sc.head[0].split(' ').collect();
        let kind = h[0].to_string();
        let n: usize = h[1].parse().unwrap();
        let mut w = World { kind: kind.clone(), large: h.get(2) == Some(&"large"), slots: vec![], ec: None, xs: vec![], per: n, residues: vec![], arm: (0..MAXT).map(|_| std::cell::Cell::new(NEVER)).collect(), terms: Mutex::new(vec![]) };
        for _ in 0..n {
            w.slots.push(Mutex::new(match kind.as_str() {
                "poly" => Slot::Poly(Polynomial::new(), Mp::new()),
                "curve" => Slot::Curve(None, vec![]),
                "sum" => Slot::Sum(ECPoint::infinity(), None),
                "crt" => Slot::Part(None),
                _ => Slot::Build(None),
            }));
        }
        if kind == "sum" { let c = nums(h[2]); w.ec = Some(if h.get(3) == Some(&"built") { EllipticCurve::new(&c[0], &c[1], &c[2]) } else { EllipticCurve::new_raw(&c[0], &c[1], &c[2]) }); }
        if kind == "crt" { w.xs = nums(h[2]); w.slots = (0..n * w.xs.len()).map(|_| Mutex::new(Slot::Part(None))).collect(); w.residues = h[3..].iter().map(|s| { let (l, r) = s.split_once(':').unwrap(); (l.parse().unwrap(), r.parse().unwrap()) }).collect(); }
        w
    }
    pub fn arm(&self, n: u64) { self.arm[me().id].set(n); }
    fn armed<R>(&self, f: impl FnOnce() -> R) -> (Result<R, ()>, bool) {
        let c = me();
        let n = self.arm[c.id].replace(NEVER);
        c.oom_fired = false;
        if n != NEVER { c.oom_at = c.allocs + n; }
        let r = lib(f);
        c.oom_at = NEVER;
        (r, c.oom_fired)
    }
    fn lock(&self, k: usize) -> std::sync::MutexGuard<'_, Slot> { self.slots[k].lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn op(&self, text: &str) {
        let w: Vec<&str> = text.split(' ').collect();
        count("operations");
        match self.kind.as_str() { "poly" => self.poly(text, &w), "curve" => self.curve(text, &w), "sum" => self.sum(text, &w), "crt" => self.crt(text, &w), _ => self.builder(text, &w) }
    }
    fn log(&self, text: &str, res: &str) {
        fold_str(text); fold_str(res);
        let s = sim();
        if s.logging { s.log.push(format!("task {} op {}: {} -> {}", me().id, me().op, text, if res.len() > 300 { &res[..300] } else { res })); }
    }
    pub fn finish(&self) {
        match self.kind.as_str() {
            "poly" => for k in 0..self.slots.len() { self.check_poly(k, "at the end"); },
            "curve" => for k in 0..self.slots.len() { self.check_curve(k, "at the end"); },
            "sum" => {
                // everything merged into one total
                let (mut t, mut m) = (ECPoint::infinity(), None);
                let ec = self.ec.as_ref().unwrap();
                for k in 0..self.slots.len() {
                    if let Slot::Sum(p, g) = &*self.lock(k) {
                        match lib(|| ec.plus(&t, p)) { Ok(r) => t = r, Err(()) => violation("refused", &format!("merging the total {} with the running sum {} panicked", g_show(&m), g_show(g))) }
                        m = g_add(&ec.a, &ec.p, &m, g);
                    }
                }
                if g_of(&ec.p, &t) != m { violation("sum", &format!("the final total is {}, the group sum of all contributions is {}", t, g_show(&m))); }
                fold_str(&g_show(&m));
            }
            "crt" => for x in 0..self.xs.len() {
                let mut parts = vec![]; let mut mods = vec![];
                for k in x * self.per..(x + 1) * self.per { if let Slot::Part(Some((r, m))) = &*self.lock(k) { parts.push(r.clone()); mods.extend(m.iter().cloned()); } }
                if !parts.is_empty() { match lib(|| chinese_remainder(&parts)) { Ok(r) => self.check_crt(&r, &mods, x * self.per, "the final merge"), Err(()) => violation("refused", "the final merge panicked") } }
            }
            _ => for (k, (t, d)) in self.terms.lock().unwrap().iter().enumerate() {
                if !td_eq(t, d) { violation("term", &format!("the term built {}th became {}, it was {}", k, e_term(t), show_td(d))); }
            },
        }
    }
    // ------------------------------------------------------------ C05
    fn products(&self) -> usize { if self.large { 10_000 } else { 400 } }
    fn check_poly(&self, k: usize, when: &str) { let g = self.lock(k); self.check_p(&g, k, when); }
    fn check_p(&self, g: &Slot, k: usize, when: &str) {
        if let Slot::Poly(p, m) = g {
            match m_of_pol(p) {
                Err(e) => violation("polynomial", &format!("{}: slot {} holds {}; exactly it is {}", when, k, e, m_show(m))),
                Ok(got) => if got != *m { violation("polynomial", &format!("{}: slot {} holds {}, exactly it is {}", when, k, m_show(&got), m_show(m))) },
            }
            if p.is_zero() != m.is_empty() { violation("polynomial", &format!("{}: slot {} is_zero {} but exactly it is {}", when, k, p.is_zero(), m_show(m))); }
        }
    }
    fn get_poly(&self, k: usize) -> (Polynomial, Mp) { if let Slot::Poly(p, m) = &*self.lock(k) { (p.clone(), m.clone()) } else { unreachable!() } }
    fn poly(&self, text: &str, w: &[&str]) {
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        let lit = |i: usize| if let Lit::P(v) = parse(w[i]) { v } else { panic!("{}", text) };
        let lt = |i: usize| if let Lit::T(v) = parse(w[i]) { v } else { panic!("{}", text) };
        let d = k(1);
        let (mt, ms, me) = if self.large { (700, 200_000, 500) } else { (60, 20_000, 60) };
        let too_big = |m: &Mp| m.len() > mt || m_size(m) > ms || m.keys().any(|k| k.0 > me || k.1 > me || k.2.abs() > me);
        // pure operations: the result replaces slot d
        let pure = |new: Option<Mp>, undefined: bool, f: &dyn Fn() -> Polynomial| {
            match &new { Some(m) if too_big(m) => { count("skipped"); return; } None if !undefined => { count("skipped"); return; } _ => {} }
            let (r, oom) = self.armed(f);
            match (r, new) {
                (Ok(p), Some(m)) => {
                    let mut g = self.lock(d);
                    *g = Slot::Poly(p, m);
                    self.check_p(&g, d, &format!("after {}", text));
                    if let Slot::Poly(p, m) = &*g { self.log(text, &m_show(m)); let _ = p; }
                }
                (Err(()), Some(m)) => { if !oom { violation("refused", &format!("{} panicked; exactly it gives {}", text, m_show(&m))); } count("aborted"); self.log(text, "aborted"); }
                (Err(()), None) => { count("refused"); self.log(text, "refused"); }
                (Ok(p), None) => {
                    // a product of two variables cannot be expressed, so any result is wrong
                    if matches!(w[0], "mul" | "pt*" | "tp*") || (w[0] == "pow" && w[3] != "0" && w[3] != "1") { violation("accepted", &format!("{} was accepted, although variables meet in it, and gave {}", text, e_pol(&p))); }
                    self.log(text, "accepted"); count("undefined_accepted");
                }
            }
        };
        match w[0] {
            "set" => { let v = lit(2); pure(Some(m_of(&v)), false, &|| mk_pol(&v)) }
            "copy" => { let (p, m) = self.get_poly(k(2)); pure(Some(m), false, &|| p.clone()) }
            "neg" => { let (p, m) = self.get_poly(k(2)); pure(Some(m_add(&Mp::new(), &m, -1)), false, &|| if m.len() % 2 == 0 { -&p } else { -p.clone() }) }
            "add" | "sub" | "mul" => {
                let ((p, m), (q, n)) = (self.get_poly(k(2)), self.get_poly(k(3)));
                let f = k(4);
                let new = match w[0] { "add" => Some(m_add(&m, &n, 1)), "sub" => Some(m_add(&m, &n, -1)), _ => { if m.len() * n.len() > self.products() { count("skipped"); return; } m_mul(&m, &n) } };
                let und = new.is_none();
                pure(new, und, &|| match (w[0], f) {
                    ("add", 0) => &p + &q, ("add", 1) => p.clone() + &q, ("add", 2) => &p + q.clone(), ("add", _) => p.clone() + q.clone(),
                    ("sub", 0) => &p - &q, ("sub", 1) => p.clone() - &q, ("sub", 2) => &p - q.clone(), ("sub", _) => p.clone() - q.clone(),
                    (_, 0) => &p * &q, (_, 1) => p.clone() * &q, (_, 2) => &p * q.clone(), _ => p.clone() * q.clone(),
                });
                // the operands are untouched
                for (s, p, m) in [(2, &p, &m), (3, &q, &n)] { if m_of_pol(p).as_ref() != Ok(m) { violation("operand", &format!("{} changed its operand {} from {} to {}", text, s - 1, m_show(m), e_pol(p))); } }
            }
            "pt+" | "pt-" | "pt*" | "tp+" | "tp-" | "tp*" => {
                let ((p, m), t) = (self.get_poly(k(2)), lt(3));
                let n = m_of(&[t.clone()]);
                let (x, y) = if w[0].starts_with('p') { (&m, &n) } else { (&n, &m) };
                let new = match &w[0][2..] { "+" => Some(m_add(x, y, 1)), "-" => Some(m_add(x, y, -1)), _ => m_mul(x, y) };
                let und = new.is_none();
                pure(new, und, &|| { let t = mk_term(&t); match w[0] { "pt+" => &p + &t, "pt-" => &p - &t, "pt*" => &p * &t, "tp+" => &t + &p, "tp-" => &t - &p, _ => &t * &p } });
            }
            "tt+" | "tt-" => {
                let (s, t) = (lt(2), lt(3));
                let (x, y) = (m_of(&[s.clone()]), m_of(&[t.clone()]));
                pure(Some(m_add(&x, &y, if w[0] == "tt+" { 1 } else { -1 })), false, &|| { let (s, t) = (mk_term(&s), mk_term(&t)); if w[0] == "tt+" { &s + &t } else { &s - &t } });
            }
            "div" => {
                // slot 2 divided by one term that divides it exactly; flavours: polynomial, term
                let (p, m) = self.get_poly(k(2));
                let dv = match self.divisor(&m, w) { Some(t) => t, None => { count("skipped"); return; } };
                let new = m_div(&m, &dv);
                let f = k(7);
                pure(new, false, &|| if f == 0 { &p / mk_term(&dv).to_pol() } else if f == 1 { &p / mk_term(&dv) } else { p.clone() / &mk_term(&dv).to_pol() });
            }
            "pow" => {
                let (p, m) = self.get_poly(k(2)); let e = k(3);
                if m.len() > 8 { count("skipped"); return; }
                let mut r: Option<Mp> = Some(m_of(&[Td { c: BigInt::one(), x: 0, y: 0, q: 0, v: None }]));
                for _ in 0..e { r = r.and_then(|r| m_mul(&r, &m)); }
                let hasvar = m.keys().any(|k| k.3.is_some());
                let und = r.is_none() || hasvar;
                if hasvar { r = None; }
                pure(r, und, &|| match (e, m.len() % 2) { (2, 0) => p.square(), (3, 0) => p.cube(), (_, 1) => p.power(&BigInt::from(e)), _ => p.power(e as i32) });
            }
            "rem" => {
                let (p, m) = self.get_poly(k(2)); let n: BigInt = w[3].parse().unwrap();
                let new = m_mod(&m, &n);
                let und = new.is_none();
                pure(new, und, &|| if k(4) == 0 { &p % &n } else { &p % n.to_i32().unwrap() });
            }
            // in-place updates
            _ => self.poly_inplace(text, w, &too_big),
        }
    }
    fn divisor(&self, m: &Mp, w: &[&str]) -> Option<Td> {
        // coefficient choice, x part, y part, q shift
        let ch: Vec<i64> = w[3..7].iter().map(|s| s.parse().unwrap()).collect();
        let content = m.values().fold(BigInt::zero(), |a, c| a.gcd(c));
        let content = if content.is_zero() { BigInt::one() } else { content };
        let c = match ch[0] { 0 => BigInt::one(), 1 => -BigInt::one(), 2 => content, 3 => -content, _ => { let mut g = content; for d in [2, 3, 5, 7] { if g.is_multiple_of(&BigInt::from(d)) { g = BigInt::from(d); break; } } g } };
        let mx = m.keys().map(|k| k.0).min().unwrap_or(0).max(0);
        let my = m.keys().map(|k| k.1).min().unwrap_or(0).max(0);
        Some(Td { c, x: mx * ch[1] as i32 / 2, y: my * ch[2] as i32 / 2, q: ch[3] as i32, v: None })
    }
    fn poly_inplace(&self, text: &str, w: &[&str], too_big: &dyn Fn(&Mp) -> bool) {
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        let d = k(1);
        let op = w[0];
        let second: Option<(Polynomial, Mp)> = match op { "+=" | "-=" | "*=" | "/=p" => Some(self.get_poly(k(2))), _ => None };
        let mut g = self.lock(d);
        let (p, m) = if let Slot::Poly(p, m) = &mut *g { (p, m) } else { unreachable!() };
        let mut dv: Option<Td> = None;
        let mut keep_on_abort = false;
        // the exact outcome: None = must be refused or is undefined
        let new: Option<Mp> = match op {
            "+=" => Some(m_add(m, &second.as_ref().unwrap().1, 1)),
            "-=" => Some(m_add(m, &second.as_ref().unwrap().1, -1)),
            "*=" => { keep_on_abort = true; if m.len() * second.as_ref().unwrap().1.len() > self.products() { count("skipped"); return; } m_mul(m, &second.as_ref().unwrap().1) }
            "+=t" => { let t = if let Lit::T(t) = parse(w[2]) { t } else { unreachable!() }; dv = Some(t.clone()); Some(m_add(m, &m_of(&[t]), 1)) }
            "/=" | "/=1" => {
                keep_on_abort = true;
                match self.divisor(m, w) { Some(t) => { let n = m_div(m, &t); if n.is_none() { count("skipped"); return; } dv = Some(t); n } None => { count("skipped"); return; } }
            }
            "/=p" => {
                keep_on_abort = true;
                let b = &second.as_ref().unwrap().1;
                if b.len() == 1 && !m.is_empty() { count("skipped"); return; }
                if b.len() == 1 { if b.keys().next().unwrap().3.is_some() { count("skipped"); return; } Some(Mp::new()) } else { None }
            }
            "/=v" => { keep_on_abort = true; if m.is_empty() { count("skipped"); return; } None } // by a variable, or by zero
            "mod" => { let n: BigInt = w[2].parse().unwrap(); m_mod(m, &n) }
            "omit" => {
                if m.keys().any(|k| k.0 != 0 || k.1 != 0) { None } else { let o: i32 = w[2].parse().unwrap(); Some(m.iter().filter(|(k, _)| k.2 <= o).map(|(k, c)| (*k, c.clone())).collect()) }
            }
            _ => panic!("{}", text),
        };
        if let Some(n) = &new { if too_big(n) { count("skipped"); return; } }
        let before = m.clone();
        let sec = second.as_ref().map(|s| &s.0);
        let (r, oom) = self.armed(|| match op {
            "+=" => if before.len() % 2 == 0 { *p += sec.unwrap() } else { *p += sec.unwrap().clone() },
            "-=" => if before.len() % 2 == 0 { *p -= sec.unwrap() } else { *p -= sec.unwrap().clone() },
            "*=" => if before.len() % 2 == 0 { *p *= sec.unwrap() } else { *p *= sec.unwrap().clone() },
            "+=t" => *p += mk_term(dv.as_ref().unwrap()),
            "/=" => *p /= mk_term(dv.as_ref().unwrap()),
            "/=1" => *p /= mk_term(dv.as_ref().unwrap()).to_pol(),
            "/=p" => *p /= sec.unwrap(),
            "/=v" => { let t = if w[2] == "0" { mk_term(&Td { c: BigInt::zero(), x: 0, y: 0, q: 0, v: None }) } else { mk_term(&Td { c: BigInt::one(), x: 0, y: 0, q: 0, v: Some((0, 1)) }) };
                if w[3] == "0" { *p /= t } else { *p /= t.to_pol() } }
            "mod" => p.modular_assign(&w[2].parse().unwrap()),
            "omit" => p.omit_high_order_q(w[2].parse().unwrap()),
            _ => unreachable!(),
        });
        if let Some((q, n)) = &second { if m_of_pol(q).as_ref() != Ok(n) { violation("operand", &format!("{} changed its operand from {} to {}", text, m_show(n), e_pol(q))); } }
        match (r, new) {
            (Ok(()), Some(n)) => { *m = n; }
            (Ok(()), None) => { // accepting something undefined: nothing is known about the result
                // a product of two variables cannot be expressed and a quotient by zero does not exist: any result is wrong
                if op == "*=" || (op == "/=v" && w[2] == "0") || (op == "/=p" && second.as_ref().unwrap().1.is_empty()) { violation("accepted", &format!("{} was accepted on {} and gave {}", text, m_show(&before), e_pol(p))); }
                count("undefined_accepted");
                self.log(text, "accepted");
                *p = Polynomial::new(); *m = Mp::new();
                return;
            }
            (Err(()), _) if oom => {
                count("aborted");
                self.log(text, "aborted");
                if keep_on_abort {
                    let got = m_of_pol(p);
                    let done = new_of(op, &before, &second, &dv);
                    if got.as_ref() == Ok(&before) { return; }
                    if let (Ok(x), Some(y)) = (&got, &done) { if x == y { *m = y.clone(); return; } }
                    violation("interrupted", &format!("{} was interrupted by a failed allocation and left {}; before it was {}", text, e_pol(p), m_show(&before)));
                }
                // a sum or reduction interrupted half way is not promised anything: start the slot afresh
                *p = Polynomial::new(); *m = Mp::new();
                return;
            }
            (Err(()), Some(n)) => violation("refused", &format!("{} panicked on {}; exactly it gives {}", text, m_show(&before), m_show(&n))),
            (Err(()), None) => {
                count("refused");
                let got = m_of_pol(p);
                if got.as_ref() != Ok(&before) { violation("refused-update", &format!("the refused {} changed {} to {}", text, m_show(&before), e_pol(p))); }
                self.log(text, "refused");
                return;
            }
        }
        self.check_p(&g, d, &format!("after {} on {}", text, m_show(&before)));
        if let Slot::Poly(_, m) = &*g { self.log(text, &m_show(m)); }
    }
    // ------------------------------------------------------------ C06
    fn check_curve(&self, k: usize, when: &str) {
        let g = self.lock(k);
        if let Slot::Curve(Some(c), snap) = &*g {
            if c.points.iter().map(e_pt).ne(snap.iter().map(e_pt)) { violation("list", &format!("{}: the list of curve {} changed by itself: {}", when, k, e_curve(c))); }
        }
    }
    fn complete(&self, c: &EllipticCurve, when: &str) {
        let p = c.p.to_i64().unwrap();
        let want = points_of(&c.a, &c.b, p);
        let mut got: Vec<(i64, i64)> = vec![];
        let mut inf = 0;
        for q in c.points.iter() {
            if q.is_infinity() { inf += 1; } else if q.z != BigInt::one() { violation("list", &format!("{}: the list of {} has {}", when, e_curve(c), e_pt(q))); }
            else { match (q.x.to_i64(), q.y.to_i64()) { (Some(x), Some(y)) => got.push((x, y)), _ => violation("list", &format!("{}: the list of {} has {}", when, e_curve(c), e_pt(q))) } }
        }
        got.sort();
        if got != want || inf != 1 { violation("list", &format!("{}: y^2=x^3+{}x+{} over GF({}) has {} affine points; the list has {} and infinity {} times: {}", when, c.a, c.b, c.p, want.len(), got.len(), inf, e_curve(c))); }
        let n = match lib(|| c.cardinality()) { Ok(n) => n, Err(()) => violation("list", &format!("{}: cardinality() panicked", when)) };
        if n != want.len() + 1 { violation("list", &format!("{}: cardinality {} instead of {}", when, n, want.len() + 1)); }
        match lib(|| c.points()) { Ok(v) => if v.iter().map(e_pt).ne(c.points.iter().map(e_pt)) { violation("list", &format!("{}: points() differs from the list", when)) }, Err(()) => violation("list", "points() panicked") }
    }
    fn curve(&self, text: &str, w: &[&str]) {
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        let d = k(1);
        self.check_curve(d, &format!("before {}", text));
        match w[0] {
            "new" | "raw" => {
                let c = nums(w[2]);
                let (r, oom) = self.armed(|| if w[0] == "new" { EllipticCurve::new(&c[0], &c[1], &c[2]) } else { EllipticCurve::new_raw(&c[0], &c[1], &c[2]) });
                let prime = c[2].to_i64().map_or(false, crate::gen::is_prime);
                match r {
                    Err(()) => { if prime && !oom { violation("refused", &format!("{} panicked", text)); } count(if oom { "aborted" } else { "refused" }); self.log(text, "refused"); }
                    Ok(ec) => {
                        if !prime && w[0] == "new" { count("undefined_accepted"); self.log(text, "accepted"); return; }
                        if ec.a != c[0] || ec.b != c[1] || ec.p != c[2] { violation("list", &format!("{} made {}", text, e_curve(&ec))); }
                        if w[0] == "new" { self.complete(&ec, &format!("after {}", text)); count("builds_finished"); } else if !ec.points.is_empty() { violation("list", &format!("{} made a filled list: {}", text, e_curve(&ec))); }
                        let s = ec.points.clone();
                        self.log(text, &e_curve(&ec));
                        *self.lock(d) = Slot::Curve(Some(ec), s);
                    }
                }
            }
            "clone" => {
                let src = { let g = self.lock(k(2)); if let Slot::Curve(Some(c), _) = &*g { let (r, _) = self.armed(|| c.clone()); r.ok() } else { None } };
                if let Some(c) = src { let s = c.points.clone(); self.check_curve(k(2), &format!("after {}", text)); *self.lock(d) = Slot::Curve(Some(c), s); self.log(text, "ok"); } else { self.log(text, "-"); }
            }
            "build" => {
                let mut g = self.lock(d);
                if let Slot::Curve(Some(c), snap) = &mut *g {
                    let n0 = c.points.len();
                    let (r, oom) = self.armed(|| c.create_points());
                    match r {
                        Ok(()) => { self.complete(c, &format!("after {} (the list had {} entries before)", text, n0)); count("builds_finished"); if n0 > 0 { count("rebuilds_finished"); } }
                        Err(()) => { if !oom { violation("refused", &format!("{} panicked", text)); } count("builds_interrupted"); }
                    }
                    *snap = c.points.clone();
                    self.log(text, &format!("{} {}", c.points.len(), oom));
                }
            }
            "edit" => {
                let mut g = self.lock(d);
                if let Slot::Curve(Some(c), snap) = &mut *g {
                    match w[2] {
                        "clear" => c.points.clear(),
                        "pop" => { c.points.pop(); }
                        "dup" => if let Some(p) = c.points.first().cloned() { c.points.push(p) },
                        "inf" => c.points.insert(0, ECPoint::infinity()),
                        "junk" => c.points.push(ECPoint::new(&BigInt::from(1), &BigInt::from(1), &BigInt::from(1))),
                        "rev" => c.points.reverse(),
                        "half" => { let n = c.points.len() / 2; c.points.truncate(n) }
                        "swap" => if c.points.len() > 2 { let n = c.points.len(); c.points.swap(0, n - 1) },
                        _ => { if !c.points.is_empty() { c.points.remove(0); } }
                    }
                    *snap = c.points.clone();
                    count("edits");
                    self.log(text, &c.points.len().to_string());
                }
            }
            "read" => {
                let g = self.lock(d);
                if let Slot::Curve(Some(c), snap) = &*g {
                    let (r, _) = self.armed(|| (c.cardinality(), c.points()));
                    if let Ok((n, v)) = r {
                        if n != snap.len() || v.iter().map(e_pt).ne(snap.iter().map(e_pt)) { violation("list", &format!("{}: cardinality {} and {} points, the list has {}", text, n, v.len(), snap.len())); }
                    }
                    self.log(text, &snap.len().to_string());
                }
            }
            _ => panic!("{}", text),
        }
        self.check_curve(d, &format!("after {}", text));
        let o = (d + 1) % self.slots.len();
        self.check_curve(o, &format!("after {}", text));
    }
    // ------------------------------------------------------------ C07
    fn sum(&self, text: &str, w: &[&str]) {
        let ec = self.ec.as_ref().unwrap();
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        let d = k(1);
        match w[0] {
            // add <slot> <x,y,z> <n> <flavour>
            "add" => {
                let c = nums(w[2]);
                let n: BigInt = w[3].parse().unwrap();
                let f = k(4);
                let pt = mk_pt(&[c[0].clone(), c[1].clone(), c[2].clone()]);
                let gp = g_of(&ec.p, &pt);
                let contrib = match lib(|| match f {
                    0 | 1 => ec.multiply_scalar(&pt, &n),
                    2 | 3 => ec.negate(&ec.multiply_scalar(&pt, &(-&n))),
                    _ => ec.multiply_scalar(&ec.negate(&pt), &(-&n)),
                }) { Ok(p) => p, Err(()) => violation("refused", &format!("{}: the multiple {} of {} panicked", text, n, pt)) };
                let gm = g_mul(&ec.a, &ec.p, &gp, &n);
                if g_of(&ec.p, &contrib) != gm { violation("sum", &format!("{}: the contribution {} times {} came out as {}, it is {}", text, n, pt, contrib, g_show(&gm))); }
                let mut g = self.lock(d);
                if let Slot::Sum(s, m) = &mut *g {
                    let r = lib(|| if f % 2 == 0 { ec.plus(s, &contrib) } else { ec.plus(&contrib, s) });
                    self.summed(text, ec, s, m, &gm, r);
                }
            }
            // the running sum itself is doubled / multiplied
            "mul" => {
                let n: BigInt = w[2].parse().unwrap();
                let mut g = self.lock(d);
                if let Slot::Sum(s, m) = &mut *g {
                    let r = lib(|| ec.multiply_scalar(s, &(&n - 1)));
                    let gm = g_mul(&ec.a, &ec.p, m, &(&n - 1));
                    match r { Ok(p) if g_of(&ec.p, &p) == gm => { let r = lib(|| ec.plus(s, &p)); self.summed(text, ec, s, m, &gm, r) }
                        Ok(p) => violation("sum", &format!("{}: {} times {} came out as {}, it is {}", text, &n - 1, g_show(m), p, g_show(&gm))),
                        Err(()) => violation("refused", &format!("{} panicked at {}", text, g_show(m))) }
                }
            }
            "merge" => {
                let e = k(2);
                if e == d { return; }
                let (mut a, mut b) = { let (x, y) = (d.min(e), d.max(e)); let gx = self.lock(x); let gy = self.lock(y); if x == d { (gx, gy) } else { (gy, gx) } };
                if let (Slot::Sum(s, m), Slot::Sum(t, u)) = (&mut *a, &mut *b) {
                    let r = lib(|| ec.plus(s, t));
                    let gm = u.clone();
                    self.summed(text, ec, s, m, &gm, r);
                    *t = ECPoint::infinity(); *u = None;
                }
            }
            "neg" => {
                let mut g = self.lock(d);
                if let Slot::Sum(s, m) = &mut *g {
                    match lib(|| ec.negate(s)) { Ok(p) => { let gm = g_neg(&ec.p, m); if g_of(&ec.p, &p) != gm { violation("sum", &format!("{}: the negative of {} came out as {}", text, g_show(m), p)); } *s = p; *m = gm; self.log(text, &g_show(m)); }
                        Err(()) => violation("refused", &format!("{} panicked", text)) }
                }
            }
            _ => panic!("{}", text),
        }
    }
    fn summed(&self, text: &str, ec: &EllipticCurve, s: &mut ECPoint, m: &mut Gp, add: &Gp, r: Result<ECPoint, ()>) {
        let want = g_add(&ec.a, &ec.p, m, add);
        if m.is_none() || add.is_none() { count("additions_with_infinity"); } else if want.is_none() { count("additions_of_opposites"); } else if m == add { count("doublings"); }
        match r {
            Err(()) => violation("refused", &format!("{}: adding {} to {} panicked", text, g_show(add), g_show(m))),
            Ok(p) => {
                if g_of(&ec.p, &p) != want { violation("sum", &format!("{}: {} plus {} came out as {}, it is {} (a={} b={} p={})", text, g_show(m), g_show(add), p, g_show(&want), ec.a, ec.b, ec.p)); }
                *s = p; *m = want;
                self.log(text, &g_show(m));
            }
        }
    }
    // ------------------------------------------------------------ C08
    fn check_crt(&self, r: &ModResult, mods: &[BigInt], slot: usize, when: &str) {
        let x = &self.xs[slot / self.per];
        let l = mods.iter().fold(BigInt::one(), |a, m| a * m);
        if r.l != l { violation("modulus", &format!("{}: the modulus is {}, the product of {:?} is {}", when, r.l, mods.iter().map(|m| m.to_string()).collect::<Vec<_>>(), l)); }
        for m in mods { if (&r.r - x).mod_floor(m) != BigInt::zero() { violation("residue", &format!("{}: {} mod {} is not congruent to {} modulo {}", when, r.r, r.l, x, m)); } }
    }
    fn crt(&self, text: &str, w: &[&str]) {
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        match w[0] {
            // arrive <slot> <residue index>: merged with what the slot holds, in the given order
            "arrive" => {
                let (l, r) = &self.residues[k(2)];
                let mut g = self.lock(k(1));
                if let Slot::Part(s) = &mut *g {
                    let new = ModResult { l: l.clone(), r: r.clone() };
                    let (v, mods) = match s.take() {
                        None => (vec![new], vec![l.clone()]),
                        Some((old, mut m)) => { m.push(l.clone()); (if w[3] == "0" { vec![old, new] } else { vec![new, old] }, m) }
                    };
                    if v.len() == 1 && w[3] == "0" { *s = Some((v[0].clone(), mods)); self.log(text, "kept"); return; }
                    match lib(|| chinese_remainder(&v)) { Ok(r) => { self.check_crt(&r, &mods, k(1), text); self.log(text, &format!("{}:{}", r.l, r.r)); *s = Some((r, mods)); } Err(()) => violation("refused", &format!("{} panicked", text)) }
                }
            }
            // batch <slot> <residue indices>: all merged by one call, with what the slot holds at the place given
            "batch" => {
                let mut g = self.lock(k(1));
                if let Slot::Part(s) = &mut *g {
                    let mut v: Vec<ModResult> = w[3..].iter().map(|i| { let (l, r) = &self.residues[i.parse::<usize>().unwrap()]; ModResult { l: l.clone(), r: r.clone() } }).collect();
                    let mut mods: Vec<BigInt> = v.iter().map(|m| m.l.clone()).collect();
                    if let Some((r, m)) = s.take() { v.insert(k(2).min(v.len()), r); mods.extend(m); }
                    match lib(|| chinese_remainder(&v)) { Ok(r) => { self.check_crt(&r, &mods, k(1), text); self.log(text, &format!("{}:{}", r.l, r.r)); *s = Some((r, mods)); } Err(()) => violation("refused", &format!("{} panicked", text)) }
                }
            }
            // merge <dest> <slots...>
            "merge" => {
                let mut ks: Vec<usize> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
                let order = ks.clone();
                ks.sort(); ks.dedup();
                let mut taken: BTreeMap<usize, (ModResult, Vec<BigInt>)> = BTreeMap::new();
                for &x in &ks { if let Slot::Part(s) = &mut *self.lock(x) { if let Some(t) = s.take() { taken.insert(x, t); } } }
                let mut v = vec![]; let mut mods = vec![];
                for x in order { if let Some((r, m)) = taken.remove(&x) { v.push(r); mods.extend(m); } }
                if v.is_empty() { self.log(text, "-"); return; }
                let r = match lib(|| chinese_remainder(&v)) { Ok(r) => r, Err(()) => violation("refused", &format!("{} panicked", text)) };
                self.check_crt(&r, &mods, k(1), text);
                self.log(text, &format!("{}:{}", r.l, r.r));
                // somebody may have put a residue into the destination meanwhile
                let mut g = self.lock(k(1));
                if let Slot::Part(s) = &mut *g {
                    match s.take() {
                        None => *s = Some((r, mods)),
                        Some((o, m)) => { let mut all = mods.clone(); all.extend(m); match lib(|| chinese_remainder(&vec![r, o])) { Ok(r) => { self.check_crt(&r, &all, k(1), text); *s = Some((r, all)); } Err(()) => violation("refused", &format!("{} panicked", text)) } }
                    }
                }
            }
            _ => panic!("{}", text),
        }
    }
    // ------------------------------------------------------------ C13
    fn builder(&self, text: &str, w: &[&str]) {
        let k = |i: usize| w[i].parse::<usize>().unwrap();
        let d = k(1);
        match w[0] {
            "new" => { let b = lib(TermBuilder::new).unwrap_or_else(|_| violation("refused", text)); *self.lock(d) = Slot::Build(Some((b, Td { c: BigInt::one(), x: 0, y: 0, q: 0, v: None }))); self.log(text, "ok"); }
            "copy" => {
                let c = { let g = self.lock(k(2)); if let Slot::Build(Some((b, m))) = &*g { lib(|| b.clone()).ok().map(|b| (b, m.clone())) } else { None } };
                if let Some(c) = c { *self.lock(d) = Slot::Build(Some(c)); }
                self.log(text, "ok");
            }
            // set <slot> part value part value ... [build]
            "set" => {
                let mut g = self.lock(d);
                if let Slot::Build(Some((b, m))) = &mut *g {
                    let mut it = w[2..].iter();
                    while let Some(part) = it.next() {
                        let v = *it.next().unwrap();
                        let n = || v.parse::<i32>().unwrap();
                        let (r, ok) = match *part {
                            "cref" => { let c: BigInt = v.parse().unwrap(); m.c = c.clone(); (lib(|| { b.coef(&c); }), true) }
                            "cown" => { let c: BigInt = v.parse().unwrap(); m.c = c.clone(); (lib(|| { b.coef(c); }), true) }
                            "ci32" => { m.c = BigInt::from(n()); (lib(|| { b.coef(n()); }), true) }
                            "x" => { m.x = n(); (lib(|| { b.xpow(n()); }), true) }
                            "y" => { m.y = n(); (lib(|| { b.ypow(n()); }), true) }
                            "q" => { m.q = n(); (lib(|| { b.qpow(n()); }), true) }
                            "xyq" => { m.x = n(); m.y = n() + 1; m.q = n() + 2; (lib(|| { b.xpow(n()).ypow(n() + 1).qpow(n() + 2); }), true) }
                            "var" => { let x = parse_var(v); m.v = x; (lib(|| { b.variable(mk_var(x)); }), true) }
                            "ij" => { let x = parse_var(v).unwrap(); let ok = x.0 >= 0 && x.1 >= 0; if ok { m.v = Some(x); } (lib(|| { b.variable_ij(x.0, x.1); }), ok) }
                            _ => panic!("{}", text),
                        };
                        match (r, ok) {
                            (Err(()), true) => violation("refused", &format!("{}: {} {} panicked", text, part, v)),
                            (Err(()), false) => count("refused"),
                            (Ok(()), false) => { count("undefined_accepted"); drop(g); *self.lock(d) = Slot::Build(None); return; }
                            _ => {}
                        }
                    }
                    self.log(text, &show_td(m));
                }
            }
            "build" => {
                let g = self.lock(d);
                if let Slot::Build(Some((b, m))) = &*g {
                    let t = match lib(|| if w[2] == "0" { b.build() } else { let _ = b.build(); b.build() }) { Ok(t) => t, Err(()) => violation("refused", &format!("{} panicked", text)) };
                    if !td_eq(&t, m) { violation("term", &format!("{} gave {}, the latest settings are {}", text, e_term(&t), show_td(m))); }
                    self.log(text, &show_td(m));
                    count("builds");
                    let mut ts = self.terms.lock().unwrap_or_else(|e| e.into_inner());
                    if ts.len() < 64 { ts.push((t, m.clone())); }
                }
            }
            _ => panic!("{}", text),
        }
    }
}
fn m_div(m: &Mp, t: &Td) -> Option<Mp> {
    if t.c.is_zero() { return None; }
    let mut r = Mp::new();
    for (k, c) in m {
        if !c.is_multiple_of(&t.c) { return None; }
        r.insert((k.0 - t.x, k.1 - t.y, k.2 - t.q, k.3), c / &t.c);
    }
    Some(r)
}
fn m_mod(m: &Mp, n: &BigInt) -> Option<Mp> {
    if !n.is_positive() { return None; }
    Some(m.iter().map(|(k, c)| (*k, c.mod_floor(n))).filter(|x| !x.1.is_zero()).collect())
}
fn new_of(op: &str, before: &Mp, second: &Option<(Polynomial, Mp)>, dv: &Option<Td>) -> Option<Mp> {
    match op { "*=" => m_mul(before, &second.as_ref().unwrap().1), "/=" | "/=1" => m_div(before, dv.as_ref().unwrap()), "/=p" => if second.as_ref().unwrap().1.len() == 1 { Some(Mp::new()) } else { None }, _ => None }
}

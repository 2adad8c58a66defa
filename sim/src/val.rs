//! Values: their text form (literals in scenario files), how they are built through the public API,
//! and how results are written down.
use ellipticcurve::bigint::ModResult;
use ellipticcurve::elliptic_curve::{ECPoint, ECPointVec, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::schoof_elkies_atkins::SEAResult;
use ellipticcurve::secp256k1::Secp256k1;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::Term;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use num_traits::ToPrimitive;

/// One term, as plain data: coefficient, x, y and q exponents, variable.
#[derive(Clone, Debug, PartialEq)]
pub struct Td { pub c: BigInt, pub x: i32, pub y: i32, pub q: i32, pub v: Option<(i32, i32)> }

/// A literal, as plain data.
#[derive(Clone, Debug)]
pub enum Lit {
    Ref(usize),
    N(BigInt), P(Vec<Td>), T(Td), Pt([BigInt; 3]), C([BigInt; 3]), R([BigInt; 3]), V(Option<(i32, i32)>),
    L(Vec<(BigInt, BigInt)>), M(Vec<Vec<BigInt>>), S, K(i32), W(String), D([BigInt; 3], BigInt),
}
/// A materialised argument or pool object.
pub enum A {
    N(BigInt), P(Polynomial), T(Term), Pt(ECPoint), C(EllipticCurve), V(SubscriptedVariable),
    L(Vec<ModResult>), M(Vec<Vec<BigInt>>), S(Secp256k1), K(SubscriptedVariableConverter), W(String), Pv(ECPointVec),
}
/// A result.
pub enum Val {
    Unit, N(BigInt), Ns(Vec<BigInt>), I(i64), B(bool), P(Polynomial), Ps(Vec<Polynomial>), T(Term), Pt(ECPoint), Pv(ECPointVec), Pts(Vec<ECPoint>),
    C(EllipticCurve), V(SubscriptedVariable), MR(ModResult), MRs(Vec<ModResult>), M(Vec<Vec<BigInt>>), Sea(SEAResult), S(Secp256k1), O(Option<u64>), Str(String),
}
fn big(s: &str) -> BigInt { s.parse().unwrap_or_else(|_| panic!("bad number {}", s)) }
pub fn parse_td(s: &str) -> Td {
    let v: Vec<&str> = s.split(':').collect();
    Td { c: big(v[0]), x: v[1].parse().unwrap(), y: v[2].parse().unwrap(), q: v[3].parse().unwrap(), v: parse_var(v[4]) }
}
pub fn parse_var(s: &str) -> Option<(i32, i32)> {
    if s == "-" { None } else { let (i, j) = s.split_once('.').unwrap(); Some((i.parse().unwrap(), j.parse().unwrap())) }
}
pub fn show_var(v: &Option<(i32, i32)>) -> String { match v { None => "-".into(), Some((i, j)) => format!("{}.{}", i, j) } }
pub fn show_td(t: &Td) -> String { format!("{}:{}:{}:{}:{}", t.c, t.x, t.y, t.q, show_var(&t.v)) }
fn tri(s: &str) -> [BigInt; 3] { let v: Vec<BigInt> = s.split(',').map(big).collect(); [v[0].clone(), v[1].clone(), v[2].clone()] }

pub fn parse(s: &str) -> Lit {
    if let Some(k) = s.strip_prefix('@') { return Lit::Ref(k.parse().unwrap()); }
    let (k, r) = s.split_once('=').unwrap_or_else(|| panic!("bad literal {}", s));
    match k {
        "n" => Lit::N(big(r)),
        "p" => Lit::P(if r == "0" { vec![] } else { r.split(';').map(parse_td).collect() }),
        "t" => Lit::T(parse_td(r)),
        "P" => Lit::Pt(tri(r)),
        "C" => Lit::C(tri(r)),
        "R" => Lit::R(tri(r)),
        "v" => Lit::V(parse_var(r)),
        "L" => Lit::L(if r == "0" { vec![] } else { r.split(';').map(|x| { let (l, r) = x.split_once(':').unwrap(); (big(l), big(r)) }).collect() }),
        "M" => Lit::M(r.split(';').map(|x| x.split(',').map(big).collect()).collect()),
        "S" => Lit::S,
        "D" => { let v: Vec<BigInt> = r.split(',').map(big).collect(); Lit::D([v[0].clone(), v[1].clone(), v[2].clone()], v[3].clone()) }
        "K" => Lit::K(r.parse().unwrap()),
        "w" => Lit::W(r.to_string()),
        _ => panic!("bad literal {}", s),
    }
}
pub fn show_pol(v: &[Td]) -> String { if v.is_empty() { "p=0".into() } else { format!("p={}", v.iter().map(show_td).collect::<Vec<_>>().join(";")) } }

pub fn mk_var(v: Option<(i32, i32)>) -> SubscriptedVariable {
    match v { None => SubscriptedVariable::new(), Some((i, j)) => SubscriptedVariable { i, j, empty: false } }
}
pub fn mk_term(t: &Td) -> Term {
    let mut b = TermBuilder::new();
    b.coef(&t.c).xpow(t.x).ypow(t.y).qpow(t.q);
    if t.v.is_some() { b.variable(mk_var(t.v)); }
    b.build()
}
pub fn mk_pol(v: &[Td]) -> Polynomial {
    let mut p = Polynomial::new();
    for t in v { p += mk_term(t).to_pol(); }
    p
}
pub fn mk_pt(p: &[BigInt; 3]) -> ECPoint { ECPoint::new(&p[0], &p[1], &p[2]) }
/// Builds an argument through the public API (library code; run inside a call).
pub fn make(l: &Lit) -> A {
    match l {
        Lit::Ref(_) | Lit::W(_) => unreachable!(),
        Lit::N(n) => A::N(n.clone()),
        Lit::P(v) => A::P(mk_pol(v)),
        Lit::T(t) => A::T(mk_term(t)),
        Lit::Pt(p) => A::Pt(mk_pt(p)),
        Lit::C(c) => A::C(EllipticCurve::new(&c[0], &c[1], &c[2])),
        Lit::R(c) => A::C(EllipticCurve::new_raw(&c[0], &c[1], &c[2])),
        Lit::V(v) => A::V(mk_var(*v)),
        Lit::L(v) => A::L(v.iter().map(|(l, r)| ModResult { l: l.clone(), r: r.clone() }).collect()),
        Lit::M(m) => A::M(m.clone()),
        Lit::D(c, n) => A::Pv(EllipticCurve::new(&c[0], &c[1], &c[2]).division_points(n)),
        Lit::S => A::S(Secp256k1::new()),
        Lit::K(p) => A::K(SubscriptedVariableConverter::new(*p)),
    }
}
impl A {
    pub fn n(&self) -> &BigInt { if let A::N(n) = self { n } else { panic!("not a number") } }
    pub fn i(&self) -> i32 { self.n().to_i32().expect("i32") }
    pub fn u(&self) -> u64 { self.n().to_u64().expect("u64") }
    pub fn p(&self) -> &Polynomial { if let A::P(n) = self { n } else { panic!("not a polynomial") } }
    pub fn t(&self) -> &Term { if let A::T(n) = self { n } else { panic!("not a term") } }
    pub fn pt(&self) -> &ECPoint { if let A::Pt(n) = self { n } else { panic!("not a point") } }
    pub fn c(&self) -> &EllipticCurve { if let A::C(n) = self { n } else { panic!("not a curve") } }
    pub fn v(&self) -> &SubscriptedVariable { if let A::V(n) = self { n } else { panic!("not a variable") } }
    pub fn l(&self) -> &Vec<ModResult> { if let A::L(n) = self { n } else { panic!("not a list") } }
    pub fn m(&self) -> &Vec<Vec<BigInt>> { if let A::M(n) = self { n } else { panic!("not a matrix") } }
    pub fn s(&self) -> &Secp256k1 { if let A::S(n) = self { n } else { panic!("not secp") } }
    pub fn k(&self) -> &SubscriptedVariableConverter { if let A::K(n) = self { n } else { panic!("not a converter") } }
}
// ------------------------------------------------------------ writing values down (no library code)
pub fn td_of(m: &ellipticcurve::term::Monomial, c: &BigInt) -> Td {
    Td { c: c.clone(), x: m.xpow, y: m.ypow, q: m.qpow, v: if m.variable.empty { None } else { Some((m.variable.i, m.variable.j)) } }
}
pub fn tds(p: &Polynomial) -> Vec<Td> { p.terms.iter().map(|(m, c)| td_of(m, c)).collect() }
pub fn e_pol(p: &Polynomial) -> String { show_pol(&tds(p)) }
pub fn e_term(t: &Term) -> String { format!("t={}", show_td(&td_of(&t.monomial, &t.coef))) }
pub fn e_pt(p: &ECPoint) -> String { format!("P={},{},{}", p.x, p.y, p.z) }
pub fn e_curve(c: &EllipticCurve) -> String {
    format!("C={},{},{}[{}]", c.a, c.b, c.p, c.points.iter().map(e_pt).collect::<Vec<_>>().join(" "))
}
fn e_ns(v: &[BigInt]) -> String { v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",") }
fn e_m(m: &[Vec<BigInt>]) -> String { format!("M={}", m.iter().map(|r| e_ns(r)).collect::<Vec<_>>().join(";")) }
fn e_v(v: &SubscriptedVariable) -> String { if v.empty { "v=-".into() } else { format!("v={}.{}", v.i, v.j) } }
fn e_mr(m: &ModResult) -> String { format!("{}:{}", m.l, m.r) }
pub fn e_arg(a: &A) -> String {
    match a {
        A::N(n) => format!("n={}", n), A::P(p) => e_pol(p), A::T(t) => e_term(t), A::Pt(p) => e_pt(p), A::C(c) => e_curve(c), A::V(v) => e_v(v),
        A::L(l) => format!("L={}", l.iter().map(e_mr).collect::<Vec<_>>().join(";")), A::M(m) => e_m(m),
        A::S(s) => format!("S={} {}", e_curve(&s.ec), e_pt(&s.g)), A::K(k) => format!("K={}", k.p), A::W(w) => w.clone(), A::Pv(v) => v.iter().map(e_pt).collect::<Vec<_>>().join(" "),
    }
}
impl Val {
    pub fn enc(&self) -> String {
        match self {
            Val::Unit => "()".into(), Val::N(n) => n.to_string(), Val::Ns(v) => e_ns(v), Val::I(i) => i.to_string(), Val::B(b) => b.to_string(),
            Val::P(p) => e_pol(p), Val::Ps(v) => v.iter().map(e_pol).collect::<Vec<_>>().join(" & "), Val::T(t) => e_term(t), Val::Pt(p) => e_pt(p),
            Val::Pv(v) => v.iter().map(e_pt).collect::<Vec<_>>().join(" "), Val::Pts(v) => v.iter().map(e_pt).collect::<Vec<_>>().join(" "),
            Val::C(c) => e_curve(c), Val::V(v) => e_v(v), Val::MR(m) => e_mr(m), Val::MRs(v) => v.iter().map(e_mr).collect::<Vec<_>>().join(";"),
            Val::M(m) => e_m(m),
            Val::Sea(s) => format!("{} deg={} elkies={} js={}", e_pol(&s.gcd), s.degree_of_gcd, s.is_elkies_prime, e_ns(&s.isogeny_j_invariants)),
            Val::S(s) => format!("S={} {}", e_curve(&s.ec), e_pt(&s.g)), Val::O(o) => format!("{:?}", o), Val::Str(s) => s.clone(),
        }
    }
    /// The value's own text (library code; run inside a call).
    pub fn text(&self) -> Option<String> {
        match self {
            Val::P(p) => Some(p.to_string()), Val::T(t) => Some(t.to_string()), Val::Pt(p) => Some(p.to_string()), Val::Pv(v) => Some(v.to_string()),
            Val::V(v) => Some(v.to_string()), Val::Sea(s) => Some(s.gcd.to_string()),
            Val::C(c) => if c.p >= BigInt::from(2) { Some(c.to_string()) } else { None },
            _ => None,
        }
    }
}

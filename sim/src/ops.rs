//! The public operations of the library, by name.
use crate::val::*;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{delta, division_polynomial as dp, divisor, eisenstein, j_invariant, modular_polynomial as mp, schoof, schoof_elkies_atkins as sea, secp256k1,
    simultaneous_equation as se, subscripted_variable as sv};
use num_traits::{One, Zero};
use std::collections::HashMap;
use std::sync::OnceLock;

/// Signature letters: I any integer; N exponent for modular powers; e small exponent; h exponent 0..3;
/// M prime modulus; X any polynomial; U polynomial in x, coefficients 1..50, degree >= 1;
/// u the same, now and then any polynomial; Q polynomial in q (with variables); Z polynomial in x and y; T term; V variable; v variable of the given prime;
/// c curve with its points; G point on the preceding curve; B any point; L residues; S linear system;
/// l small prime; d small index; D division-polynomial index; o truncation order; k converter prime; s secp256k1; g small integer;
/// E Frobenius exponent; 1 one-term polynomial; W "w=..." word; y curve without points (raw).
pub struct Op { pub n: &'static str, pub s: &'static str, pub g: &'static str, pub f: fn(&[&A]) -> Val }
macro_rules! ops { ($($n:literal $g:literal $s:literal $f:expr;)*) => { pub static OPS: &[Op] = &[$(Op { n: $n, s: $s, g: $g, f: $f }),*]; } }
ops! {
    "int.power_i32" "int" "Ie" |a| Val::N(a[0].n().power(a[1].i()));
    "int.power" "int" "Ie" |a| Val::N(a[0].n().power(a[1].n()));
    "int.power_own" "int" "Ie" |a| Val::N(a[0].n().power(a[1].n().clone()));
    "int.power_modulo" "int" "INM" |a| Val::N(a[0].n().power_modulo(a[1].n(), a[2].n()));
    "int.inverse" "int" "IM" |a| Val::N(a[0].n().inverse(a[1].n()));
    "int.egcd" "int" "II" |a| { let (g, x, y) = extended_gcd(a[0].n().clone(), a[1].n().clone()); Val::Ns(vec![g, x, y]) };
    "crt" "crt" "L" |a| Val::MR(chinese_remainder(a[0].l()));
    "sigma" "qser" "de" |a| Val::N(divisor::sigma_divisor(a[0].i(), a[1].i()));
    "eisenstein4" "qser" "d" |a| Val::P(eisenstein::eisenstein4(a[0].i()));
    "delta1" "qser" "o" |a| Val::P(delta::delta1(a[0].i()));
    "delta1_inverse" "qser" "o" |a| Val::P(delta::delta1_inverse(a[0].i()));
    "j_invariant1" "qser" "o" |a| Val::P(j_invariant::j_invariant1(a[0].i()));
    "j_invariant" "qser" "o" |a| Val::P(j_invariant::j_invariant(a[0].i()));
    "term.add" "term" "TT" |a| Val::P(a[0].t() + a[1].t());
    "term.sub" "term" "TT" |a| Val::P(a[0].t() - a[1].t());
    "term.mul" "term" "TT" |a| Val::T(a[0].t() * a[1].t());
    "term.div" "term" "TT" |a| Val::T(a[0].t() / a[1].t());
    "term.neg" "term" "T" |a| Val::T(-a[0].t());
    "term.power_i32" "term" "Th" |a| Val::T(a[0].t().power(a[1].i()));
    "term.power" "term" "Th" |a| Val::T(a[0].t().power(a[1].n()));
    "term.power_modulo" "term" "TeM" |a| Val::T(a[0].t().power_modulo(a[1].n(), a[2].n()));
    "term.to_frob" "term" "TE" |a| Val::T(a[0].t().to_frob(a[1].i()));
    "term.to_y_power" "term" "TE" |a| Val::T(a[0].t().to_y_power(a[1].i()));
    "term.to_q_power" "term" "TE" |a| Val::T(a[0].t().to_q_power(a[1].i()));
    "term.modulo" "term" "TM" |a| Val::T(a[0].t().modulo(a[1].n()));
    "term.modular_assign" "term" "TM" |a| { let mut t = a[0].t().clone(); t.modular_assign(a[1].n()); Val::T(t) };
    "term.to_pol" "term" "T" |a| Val::P(a[0].t().to_pol());
    "term.has" "term" "T" |a| { let t = a[0].t(); Val::Str(format!("{} {} {} {} {} {}", t.has_x(), t.has_y(), t.has_q(), t.xpow(), t.ypow(), t.qpow())) };
    "term.variable" "term" "T" |a| Val::V(a[0].t().variable());
    "term.is_equal_order" "term" "TT" |a| Val::B(a[0].t().is_equal_order(a[1].t()));
    "term.cmp" "term" "TT" |a| Val::Str(format!("{:?} {:?}", a[0].t().cmp(a[1].t()), a[0].t() == a[1].t()));
    "term.eval_x_polynomial" "term" "tX" |a| Val::P(a[0].t().eval_x_polynomial(a[1].p()));
    "term.eval_y_polynomial" "term" "tX" |a| Val::P(a[0].t().eval_y_polynomial(a[1].p()));
    "term.derivative_x" "term" "T" |a| Val::T(a[0].t().derivative_x());
    "term.derivative_y" "term" "T" |a| Val::T(a[0].t().derivative_y());
    "term.one" "term" "" |_| Val::T(Term::one());
    "mono.eval_xy" "term" "tII" |a| Val::N(a[0].t().monomial.eval_xy(a[1].n(), a[2].n()));
    "mono.eval_q" "term" "tE" |a| Val::I(a[0].t().monomial.eval_q(a[1].i()) as i64);
    "tb.build" "term" "IddgV" |a| Val::T(TermBuilder::new().coef(a[0].n()).xpow(a[1].i()).ypow(a[2].i()).qpow(a[3].i()).variable(*a[4].v()).build());
    "tb.build_own" "term" "IddgV" |a| Val::T(TermBuilder::new().variable(*a[4].v()).qpow(a[3].i()).coef(a[0].n().clone()).xpow(a[1].i()).ypow(a[2].i()).build());
    "tb.build_i32" "term" "gdd" |a| Val::T(TermBuilder::new().coef(a[0].i()).xpow(a[1].i()).ypow(a[2].i()).build());
    "tb.variable_ij" "term" "gg" |a| Val::T(TermBuilder::new().variable_ij(a[0].i(), a[1].i()).build());
    "poly.add" "poly" "XX" |a| Val::P(a[0].p() + a[1].p());
    "poly.sub" "poly" "XX" |a| Val::P(a[0].p() - a[1].p());
    "poly.mul" "poly" "XX" |a| Val::P(a[0].p() * a[1].p());
    "poly.add_term" "poly" "XT" |a| Val::P(a[0].p() + a[1].t());
    "poly.sub_term" "poly" "XT" |a| Val::P(a[0].p() - a[1].t());
    "poly.mul_term" "poly" "XT" |a| Val::P(a[0].p() * a[1].t());
    "poly.term_add" "poly" "TX" |a| Val::P(a[0].t() + a[1].p());
    "poly.term_sub" "poly" "TX" |a| Val::P(a[0].t() - a[1].p());
    "poly.term_mul" "poly" "TX" |a| Val::P(a[0].t() * a[1].p());
    "poly.div" "poly" "X1" |a| Val::P(a[0].p() / a[1].p());
    "poly.div_any" "poly" "XX" |a| Val::P(a[0].p() / a[1].p());
    "poly.div_term" "poly" "XT" |a| Val::P(a[0].p() / a[1].t());
    "poly.add_assign" "poly" "XX" |a| { let mut p = a[0].p().clone(); p += a[1].p(); Val::P(p) };
    "poly.sub_assign" "poly" "XX" |a| { let mut p = a[0].p().clone(); p -= a[1].p(); Val::P(p) };
    "poly.mul_assign" "poly" "XX" |a| { let mut p = a[0].p().clone(); p *= a[1].p(); Val::P(p) };
    "poly.div_assign" "poly" "X1" |a| { let mut p = a[0].p().clone(); p /= a[1].p(); Val::P(p) };
    "poly.add_assign_term" "poly" "XT" |a| { let mut p = a[0].p().clone(); p += a[1].t(); Val::P(p) };
    "poly.div_assign_term" "poly" "XT" |a| { let mut p = a[0].p().clone(); p /= a[1].t(); Val::P(p) };
    "poly.neg" "poly" "X" |a| Val::P(-a[0].p());
    "poly.eq" "poly" "XX" |a| Val::B(a[0].p() == a[1].p());
    "poly.clone" "poly" "X" |a| Val::P(a[0].p().clone());
    "poly.is_zero" "poly" "X" |a| Val::B(a[0].p().is_zero());
    "poly.power_i32" "poly" "Zh" |a| Val::P(a[0].p().power(a[1].i()));
    "poly.power" "poly" "Zh" |a| Val::P(a[0].p().power(a[1].n()));
    "poly.square" "poly" "Z" |a| Val::P(a[0].p().square());
    "poly.cube" "poly" "Z" |a| Val::P(a[0].p().cube());
    "poly.power_modulo" "pmod" "ueM" |a| Val::P(a[0].p().power_modulo(a[1].n(), a[2].n()));
    "poly.rem" "pmod" "XM" |a| Val::P(a[0].p() % a[1].n());
    "poly.rem_i32" "pmod" "XM" |a| Val::P(a[0].p() % a[1].i());
    "poly.modular_assign" "pmod" "XM" |a| { let mut p = a[0].p().clone(); p.modular_assign(a[1].n()); Val::P(p) };
    "poly.power_omit" "poly" "Qhd" |a| Val::P(a[0].p().power_omit_high_order_q(a[1].i(), a[2].i()));
    "poly.polynomial_modular" "pmod" "uUM" |a| Val::P(a[0].p().polynomial_modular(a[1].p(), a[2].n()));
    "poly.gcd" "pmod" "uuM" |a| Val::P(a[0].p().gcd(a[1].p(), a[2].n()));
    "poly.is_gcd_one" "pmod" "uuM" |a| Val::B(a[0].p().is_gcd_one(a[1].p(), a[2].n()));
    "poly.to_monic" "pmod" "uM" |a| Val::P(a[0].p().to_monic(a[1].n()));
    "poly.highest_term_x" "poly" "X" |a| Val::T(a[0].p().highest_term_x());
    "poly.derivative_x" "poly" "Z" |a| Val::P(a[0].p().derivative_x());
    "poly.derivative_y" "poly" "Z" |a| Val::P(a[0].p().derivative_y());
    "poly.has" "poly" "X" |a| { let p = a[0].p(); Val::Str(format!("{} {} {}", p.has_x(), p.has_y(), p.has_q())) };
    "poly.to_frob" "poly" "XE" |a| Val::P(a[0].p().to_frob(a[1].i()));
    "poly.to_y_power" "poly" "XE" |a| Val::P(a[0].p().to_y_power(a[1].i()));
    "poly.to_q_power" "poly" "XE" |a| Val::P(a[0].p().to_q_power(a[1].i()));
    "poly.reduction" "poly" "ZII" |a| Val::P(a[0].p().reduction(a[1].n(), a[2].n()));
    "poly.reduction_modular" "pmod" "ZIIM" |a| Val::P(a[0].p().reduction_modular(a[1].n(), a[2].n(), a[3].i()));
    "poly.eval_xy" "poly" "ZII" |a| Val::N(a[0].p().eval_xy(a[1].n(), a[2].n()));
    "poly.eval_x" "poly" "ZI" |a| Val::P(a[0].p().eval_x(a[1].n()));
    "poly.eval_y" "poly" "ZI" |a| Val::P(a[0].p().eval_y(a[1].n()));
    "poly.to_scalar" "poly" "X" |a| Val::N(a[0].p().to_scalar());
    "poly.degree_x" "poly" "X" |a| Val::I(a[0].p().degree_x() as i64);
    "poly.degree_x_u" "poly" "U" |a| Val::I(a[0].p().degree_x() as i64);
    "poly.omit" "poly" "Qg" |a| { let mut p = a[0].p().clone(); p.omit_high_order_q(a[1].i()); Val::P(p) };
    "poly.omit_any" "poly" "Xg" |a| { let mut p = a[0].p().clone(); p.omit_high_order_q(a[1].i()); Val::P(p) };
    "poly.eval_x_polynomial" "poly" "ZZ" |a| Val::P(a[0].p().eval_x_polynomial(a[1].p()));
    "poly.eval_y_polynomial" "poly" "ZZ" |a| Val::P(a[0].p().eval_y_polynomial(a[1].p()));
    "poly.to_q_power_coef" "poly" "Qg" |a| Val::P(a[0].p().to_q_power_coef(a[1].i()));
    "poly.to_variable_coef" "poly" "QV" |a| Val::N(a[0].p().to_variable_coef(*a[1].v()));
    "poly.one" "poly" "" |_| Val::P(Polynomial::one());
    "poly.zero" "poly" "" |_| Val::P(Polynomial::zero());
    "psi" "divpol" "IID" |a| Val::P(dp::psi(a[0].n(), a[1].n(), a[2].i()));
    "phi" "divpol" "IID" |a| Val::P(dp::phi(a[0].n(), a[1].n(), a[2].i()));
    "omega" "divpol" "IID" |a| Val::P(dp::omega(a[0].n(), a[1].n(), a[2].i()));
    "ec.new" "curve" "C" |a| Val::C(EllipticCurve::new(a[0].n(), a[1].n(), a[2].n()));
    "ec.new_raw" "curve" "C" |a| Val::C(EllipticCurve::new_raw(a[0].n(), a[1].n(), a[2].n()));
    "ec.create_points" "curve" "C" |a| { let mut c = EllipticCurve::new_raw(a[0].n(), a[1].n(), a[2].n()); c.create_points(); Val::C(c) };
    "ec.recreate_points" "curve" "c" |a| { let mut c = a[0].c().clone(); c.create_points(); Val::C(c) };
    "ec.clone" "curve" "c" |a| Val::C(a[0].c().clone());
    "ec.show" "curve" "c" |a| Val::Str(a[0].c().to_string());
    "ec.j_invariant" "curve" "c" |a| Val::N(a[0].c().j_invariant());
    "ec.is_on_curve" "curve" "cB" |a| Val::B(a[0].c().is_on_curve(a[1].pt()));
    "ec.is_on_curve_g" "curve" "cG" |a| Val::B(a[0].c().is_on_curve(a[1].pt()));
    "ec.canonicalize" "curve" "cB" |a| Val::Pt(a[0].c().canonicalize(a[1].pt()));
    "ec.plus" "curve" "cGG" |a| Val::Pt(a[0].c().plus(a[1].pt(), a[2].pt()));
    "ec.plus_any" "curve" "cGB" |a| Val::Pt(a[0].c().plus(a[1].pt(), a[2].pt()));
    "ec.negate" "curve" "cG" |a| Val::Pt(a[0].c().negate(a[1].pt()));
    "ec.points" "curve" "c" |a| Val::Pts(a[0].c().points());
    "ec.cardinality" "curve" "c" |a| Val::I(a[0].c().cardinality() as i64);
    "ec.multiply_scalar" "curve" "cGI" |a| Val::Pt(a[0].c().multiply_scalar(a[1].pt(), a[2].n()));
    "ec.point_order" "curve" "cG" |a| Val::N(a[0].c().point_order(a[1].pt()));
    "ec.division_points" "curve" "cg" |a| Val::Pv(a[0].c().division_points(a[1].n()));
    "ec.isogeny" "curve" "cd" |a| Val::C(a[0].c().isogeny(a[1].n()));
    "raw.plus" "curve" "rGG" |a| Val::Pt(a[0].c().plus(a[1].pt(), a[2].pt()));
    "raw.negate" "curve" "rG" |a| Val::Pt(a[0].c().negate(a[1].pt()));
    "raw.multiply_scalar" "curve" "rGI" |a| Val::Pt(a[0].c().multiply_scalar(a[1].pt(), a[2].n()));
    "raw.is_on_curve" "curve" "rG" |a| Val::B(a[0].c().is_on_curve(a[1].pt()));
    "raw.canonicalize" "curve" "rB" |a| Val::Pt(a[0].c().canonicalize(a[1].pt()));
    "raw.j_invariant" "curve" "r" |a| Val::N(a[0].c().j_invariant());
    "raw.show" "curve" "r" |a| Val::Str(a[0].c().to_string());
    "pt.new" "curve" "B" |a| Val::Pt(ECPoint::new(&a[0].pt().x, &a[0].pt().y, &a[0].pt().z));
    "pt.infinity" "curve" "" |_| Val::Pt(ECPoint::infinity());
    "pt.is_infinity" "curve" "B" |a| Val::B(a[0].pt().is_infinity());
    "pt.show" "curve" "B" |a| Val::Str(a[0].pt().to_string());
    "secp.new" "secp" "" |_| Val::S(secp256k1::Secp256k1::new());
    "secp.mul" "secp" "sg" |a| { let s = a[0].s(); Val::Pt(s.ec.multiply_scalar(&s.g, a[1].n())) };
    "secp.on_curve" "secp" "s" |a| { let s = a[0].s(); Val::B(s.ec.is_on_curve(&s.g)) };
    "sv_modpol" "modpol" "l" |a| Val::P(mp::subscripted_variable_modular_polynomial(a[0].i()));
    "sv_modpol_q" "modpol" "2" |a| Val::P(mp::subscripted_variable_modular_polynomial_q(a[0].i()));
    "sv_modpol_list" "modpol" "2" |a| Val::Ps(mp::subscripted_variable_modular_polynomial_list(a[0].i()));
    "modpol" "modpol" "2" |a| Val::P(mp::modular_polynomial(a[0].i()));
    "sea" "modpol" "c2" |a| Val::Sea(sea::sea(a[0].c(), a[1].i()));
    "schoof" "schoof" "ggz" |a| Val::MRs(schoof::schoof(a[0].n(), a[1].n(), a[2].i()));
    "solve" "linear" "S" |a| Val::M(se::solve(a[0].m()));
    "conv.new" "conv" "d" |a| Val::I(sv::SubscriptedVariableConverter::new(a[0].i()).p as i64);
    "conv.count" "conv" "k" |a| Val::I(a[0].k().count() as i64);
    "conv.index" "conv" "kv" |a| Val::O(a[0].k().index_from_variable(*a[1].v()));
    "conv.variable" "conv" "kd" |a| Val::V(a[0].k().variable_from_index(a[1].u()));
    "var.show" "conv" "V" |a| Val::Str(a[0].v().to_string());
    "var.cmp" "conv" "VV" |a| Val::Str(format!("{:?} {:?}", a[0].v().cmp(a[1].v()), a[0].v() == a[1].v()));
    "poly.show" "poly" "X" |a| Val::Str(a[0].p().to_string());
    "term.show" "term" "T" |a| Val::Str(a[0].t().to_string());
}
pub fn op(name: &str) -> &'static Op {
    static M: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    let m = M.get_or_init(|| OPS.iter().enumerate().map(|(i, o)| (o.n, i)).collect());
    &OPS[*m.get(name).unwrap_or_else(|| panic!("unknown operation {}", name))]
}

//! One arm per operation of the scripts: call the public API, project the result.
use crate::json::J;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, ECPointVec, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::secp256k1::Secp256k1;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{delta, division_polynomial, divisor, eisenstein, j_invariant, modular_polynomial, schoof,
                    schoof_elkies_atkins, simultaneous_equation};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt::Write;

const BASE: i32 = 10000;

pub struct Machine {
    p: Vec<Polynomial>,
    t: Vec<Term>,
    b: TermBuilder,
    e: Option<EllipticCurve>,
    q: Vec<ECPoint>,
    native: bool,
}

// ---------------------------------------------------------------- reading arguments

fn z(j: &J) -> BigInt {
    match j {
        J::Int(i) => BigInt::from(*i),
        J::Arr(v) => {
            let mut r = BigInt::zero();
            for l in v[1..].iter().rev() {
                r = r * BASE + l.int();
            }
            if v[0].int() < 0 { -r } else { r }
        }
        _ => panic!("script: integer expected"),
    }
}

fn var(i: i32, j: i32) -> SubscriptedVariable {
    if i < 0 && j < 0 { SubscriptedVariable::new() } else { SubscriptedVariable { i, j, empty: false } }
}

/// [i, j] or [i, j, empty]
fn var_raw(j: &J) -> SubscriptedVariable {
    let v = j.arr();
    if v.len() == 3 {
        SubscriptedVariable { i: v[0].i32(), j: v[1].i32(), empty: v[2].int() != 0 }
    } else {
        var(v[0].i32(), v[1].i32())
    }
}

fn mono(j: &J) -> Monomial {
    let v = j.arr();
    Monomial { xpow: v[0].i32(), ypow: v[1].i32(), qpow: v[2].i32(), variable: var(v[3].i32(), v[4].i32()) }
}

fn term(j: &J) -> Term {
    let v = j.arr();
    Term { coef: z(&v[1]), monomial: mono(&v[0]) }
}

fn poly(j: &J) -> Polynomial {
    let mut p = Polynomial::new();
    for t in j.arr() {
        let t = term(t);
        p.terms.insert(t.monomial, t.coef);
    }
    p
}

fn point(j: &J) -> ECPoint {
    let v = j.arr();
    ECPoint::new(&z(&v[0]), &z(&v[1]), &z(&v[2]))
}

// ---------------------------------------------------------------- writing results

fn wz(s: &mut String, v: &BigInt) {
    let sg = if v.is_zero() { 0 } else if v.is_negative() { -1 } else { 1 };
    write!(s, "[{}", sg).unwrap();
    let mut m = v.abs();
    // peel limbs in blocks of 16 so that long numbers stay cheap
    if m.bits() < 120 {
        let mut u = m.to_u128().unwrap();
        while u > 0 {
            write!(s, ",{}", u % 10000).unwrap();
            u /= 10000;
        }
    } else {
        let big = BigInt::from(10u64.pow(16));
        while !m.is_zero() {
            let (d, r) = m.div_mod_floor(&big);
            let mut u = r.to_u64().unwrap();
            for _ in 0..4 {
                if d.is_zero() && u == 0 { break; }
                write!(s, ",{}", u % 10000).unwrap();
                u /= 10000;
            }
            m = d;
        }
    }
    s.push(']');
}

fn fz(v: &BigInt) -> String {
    let mut s = String::new();
    wz(&mut s, v);
    s
}

fn wvar(s: &mut String, v: &SubscriptedVariable) {
    if v.empty { s.push_str("-1,-1") } else { write!(s, "{},{}", v.i, v.j).unwrap() }
}

fn wterm(s: &mut String, m: &Monomial, c: &BigInt) {
    write!(s, "[[{},{},{},", m.xpow, m.ypow, m.qpow).unwrap();
    wvar(s, &m.variable);
    s.push_str("],");
    wz(s, c);
    s.push(']');
}

fn fterm(t: &Term) -> String {
    let mut s = String::new();
    wterm(&mut s, &t.monomial, &t.coef);
    s
}

fn fpoly(p: &Polynomial) -> String {
    let mut s = String::from("[");
    let mut first = true;
    for (m, c) in &p.terms {
        if !first { s.push(','); }
        first = false;
        wterm(&mut s, m, c);
    }
    s.push(']');
    s
}

fn fb(b: bool) -> String { b.to_string() }
fn fstr(s: String) -> String {
    assert!(!s.contains('"') && !s.contains('\\'));
    format!("\"{}\"", s)
}
fn ford(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

/// small integers are logged as JSON integers, anything else as a value no specification step produces
fn fnat(v: &BigInt) -> String {
    match v.to_i64() { Some(i) if i.abs() < 2_000_000_000 => i.to_string(), _ => "-2000000001".to_string() }
}

macro_rules! variants {
    ($v:expr, $a:expr, $op:tt, $b:expr) => {
        match $v { 0 => &$a $op &$b, 1 => $a.clone() $op &$b, 2 => &$a $op $b.clone(), _ => $a.clone() $op $b.clone() }
    };
}
macro_rules! assign {
    ($v:expr, $a:expr, $op:tt, $b:expr) => {{
        // on a copy: nothing is promised about the left operand of an operation that is refused
        let mut l = $a.clone();
        if $v % 2 == 0 { l $op &$b } else { l $op $b.clone() }
        $a = l;
    }};
}

impl Machine {
    pub fn new() -> Self {
        Machine {
            p: vec![Polynomial::new(); 8],
            t: vec![Term::new(); 4],
            b: TermBuilder::new(),
            e: None,
            q: vec![ECPoint::infinity(); 6],
            native: true,
        }
    }

    fn fi(&self, v: &BigInt) -> String { if self.native { fnat(v) } else { fz(v) } }
    fn fpt(&self, q: &ECPoint) -> String { list(vec![self.fi(&q.x), self.fi(&q.y), self.fi(&q.z)]) }
    fn fpts(&self, v: &Vec<ECPoint>) -> String { list(v.iter().map(|q| self.fpt(q)).collect()) }
    fn ec(&self) -> &EllipticCurve { self.e.as_ref().unwrap_or_else(|| panic!("script: no curve")) }

    /// points are registers (integer) or immediate ([x,y,z])
    fn pt(&self, j: &J) -> ECPoint { match j { J::Int(i) => self.q[*i as usize].clone(), _ => point(j) } }

    fn setp(&mut self, j: &J, v: Polynomial) -> String {
        let d = j.get("d").us();
        self.p[d] = v;
        fpoly(&self.p[d])
    }
    fn sett(&mut self, j: &J, v: Term) -> String {
        let d = j.get("d").us();
        self.t[d] = v;
        fterm(&self.t[d])
    }
    fn setq(&mut self, j: &J, v: ECPoint) -> String {
        let s = self.fpt(&v);
        if let Some(d) = j.opt("d") { self.q[d.us()] = v; }
        s
    }

    pub fn exec(&mut self, j: &J) -> String {
        let op = j.get("op").str();
        let va = j.opt("v").map(|x| x.int()).unwrap_or(0);
        // register shorthands, evaluated on demand
        macro_rules! pa { () => { self.p[j.get("a").us()] } }
        macro_rules! pb { () => { self.p[j.get("b").us()] } }
        macro_rules! ta { () => { self.t[j.get("a").us()] } }
        macro_rules! tb { () => { self.t[j.get("b").us()] } }
        macro_rules! n { () => { j.get("n").i32() } }
        macro_rules! zz { ($k:expr) => { z(j.get($k)) } }
        match op {
            "reset" => { *self = Machine::new(); "[]".into() }
            // ------------------------------------------------ polynomials and terms
            "pload" => { let v = poly(j.get("x")); self.setp(j, v) }
            "tload" => { let v = term(j.get("x")); self.sett(j, v) }
            "pcopy" => { let v = pa!().clone(); self.setp(j, v) }
            "padd" => { let v = variants!(va, pa!(), +, pb!()); self.setp(j, v) }
            "psub" => { let v = variants!(va, pa!(), -, pb!()); self.setp(j, v) }
            "pmul" => { let v = variants!(va, pa!(), *, pb!()); self.setp(j, v) }
            "pdiv" => { let v = variants!(va, pa!(), /, pb!()); self.setp(j, v) }
            "ptadd" => { let v = variants!(va, pa!(), +, tb!()); self.setp(j, v) }
            "ptsub" => { let v = variants!(va, pa!(), -, tb!()); self.setp(j, v) }
            "ptmul" => { let v = variants!(va, pa!(), *, tb!()); self.setp(j, v) }
            "ptdiv" => { let v = variants!(va, pa!(), /, tb!()); self.setp(j, v) }
            "tpadd" => { let v = variants!(va, ta!(), +, pb!()); self.setp(j, v) }
            "tpsub" => { let v = variants!(va, ta!(), -, pb!()); self.setp(j, v) }
            "tpmul" => { let v = variants!(va, ta!(), *, pb!()); self.setp(j, v) }
            "tpdiv" => { let v = variants!(va, ta!(), /, pb!()); self.setp(j, v) }
            "ttadd" => { let v = variants!(va, ta!(), +, tb!()); self.setp(j, v) }
            "ttsub" => { let v = variants!(va, ta!(), -, tb!()); self.setp(j, v) }
            "ttmul" => { let v = variants!(va, ta!(), *, tb!()); self.sett(j, v) }
            "ttdiv" => { let v = variants!(va, ta!(), /, tb!()); self.sett(j, v) }
            "paddeq" => { let b = pb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], +=, b); fpoly(&self.p[d]) }
            "psubeq" => { let b = pb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], -=, b); fpoly(&self.p[d]) }
            "pmuleq" => { let b = pb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], *=, b); fpoly(&self.p[d]) }
            "pdiveq" => { let b = pb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], /=, b); fpoly(&self.p[d]) }
            "ptaddeq" => { let b = tb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], +=, b); fpoly(&self.p[d]) }
            "ptdiveq" => { let b = tb!().clone(); let d = j.get("d").us(); assign!(va, self.p[d], /=, b); fpoly(&self.p[d]) }
            "pneg" => { let v = if va % 2 == 0 { -&pa!() } else { -pa!().clone() }; self.setp(j, v) }
            "tneg" => { let v = if va % 2 == 0 { -&ta!() } else { -ta!().clone() }; self.sett(j, v) }
            "topol" => { let v = ta!().to_pol(); self.setp(j, v) }
            "pone" => { let v = Polynomial::one(); self.setp(j, v) }
            "pzero" => { let v = Polynomial::zero(); self.setp(j, v) }
            "tone" => { let v = Term::one(); self.sett(j, v) }
            "tnew" => { let v = Term::new(); self.sett(j, v) }
            // ------------------------------------------------ powers
            "ppow" => { let v = match va { 0 => pa!().power(n!()), 1 => pa!().power(BigInt::from(n!())), _ => pa!().power(&BigInt::from(n!())) }; self.setp(j, v) }
            "psquare" => { let v = pa!().square(); self.setp(j, v) }
            "pcube" => { let v = pa!().cube(); self.setp(j, v) }
            "tpow" => { let v = match va { 0 => ta!().power(n!()), 1 => ta!().power(BigInt::from(n!())), _ => ta!().power(&BigInt::from(n!())) }; self.sett(j, v) }
            "ppowmod" => { let v = pa!().power_modulo(&zz!("n"), &zz!("m")); self.setp(j, v) }
            "tpowmod" => { let v = ta!().power_modulo(&BigInt::from(n!()), &zz!("m")); self.sett(j, v) }
            "ppowz" => { let v = match va { 1 => pa!().power(zz!("n")), _ => pa!().power(&zz!("n")) }; self.setp(j, v) }
            "tpowz" => { let v = match va { 1 => ta!().power(zz!("n")), _ => ta!().power(&zz!("n")) }; self.sett(j, v) }
            "tpowmodz" => { let v = ta!().power_modulo(&zz!("n"), &zz!("m")); self.sett(j, v) }
            "zpowz" => { let b = zz!("x"); fz(&match va { 1 => b.power(zz!("n")), _ => b.power(&zz!("n")) }) }
            "zpow" => { let b = zz!("x"); fz(&match va { 0 => b.power(n!()), 1 => b.power(BigInt::from(n!())), _ => b.power(&BigInt::from(n!())) }) }
            // ------------------------------------------------ coefficients modulo p
            "prem" => { let v = match va { 0 => &pa!() % zz!("m").to_i32().expect("script: m"), _ => &pa!() % &zz!("m") }; self.setp(j, v) }
            "pmodeq" => { let m = zz!("m"); let d = j.get("d").us(); let mut l = self.p[d].clone(); l.modular_assign(&m); self.p[d] = l; fpoly(&self.p[d]) }
            "tmod" => { let v = ta!().modulo(&zz!("m")); self.sett(j, v) }
            "tmodeq" => { let m = zz!("m"); let d = j.get("d").us(); let mut l = self.t[d].clone(); l.modular_assign(&m); self.t[d] = l; fterm(&self.t[d]) }
            // ------------------------------------------------ F_p[x]
            "pmodpoly" => { let v = pa!().polynomial_modular(&pb!(), &zz!("m")); self.setp(j, v) }
            "pgcd" => { let v = pa!().gcd(&pb!(), &zz!("m")); self.setp(j, v) }
            "pcoprime" => fb(pa!().is_gcd_one(&pb!(), &zz!("m"))),
            "pmonic" => { let v = pa!().to_monic(&zz!("m")); self.setp(j, v) }
            // ------------------------------------------------ curve equation
            "pred" => { let v = pa!().reduction(&zz!("ca"), &zz!("cb")); self.setp(j, v) }
            "predm" => { let v = pa!().reduction_modular(&zz!("ca"), &zz!("cb"), j.get("m").i32()); self.setp(j, v) }
            // ------------------------------------------------ evaluation and substitution
            "pevalx" => { let v = pa!().eval_x(&zz!("x")); self.setp(j, v) }
            "pevaly" => { let v = pa!().eval_y(&zz!("x")); self.setp(j, v) }
            "pevalxy" => fz(&pa!().eval_xy(&zz!("x"), &zz!("y"))),
            "mevalxy" => fz(&ta!().monomial.eval_xy(&zz!("x"), &zz!("y"))),
            "mevalq" => ta!().monomial.eval_q(n!()).to_string(),
            "psubx" => { let v = pa!().eval_x_polynomial(&pb!()); self.setp(j, v) }
            "psuby" => { let v = pa!().eval_y_polynomial(&pb!()); self.setp(j, v) }
            "tsubx" => { let v = ta!().eval_x_polynomial(&pb!()); self.setp(j, v) }
            "tsuby" => { let v = ta!().eval_y_polynomial(&pb!()); self.setp(j, v) }
            "msubx" => { let v = ta!().monomial.eval_x_polynomial(&pb!()); self.setp(j, v) }
            "msuby" => { let v = ta!().monomial.eval_y_polynomial(&pb!()); self.setp(j, v) }
            "pfrob" => { let v = pa!().to_frob(n!()); self.setp(j, v) }
            "pypow" => { let v = pa!().to_y_power(n!()); self.setp(j, v) }
            "pqpow" => { let v = pa!().to_q_power(n!()); self.setp(j, v) }
            "tfrob" => { let v = ta!().to_frob(n!()); self.sett(j, v) }
            "typow" => { let v = ta!().to_y_power(n!()); self.sett(j, v) }
            "tqpow" => { let v = ta!().to_q_power(n!()); self.sett(j, v) }
            "pscalar" => fz(&pa!().to_scalar()),
            // ------------------------------------------------ derivatives
            "pderx" => { let v = pa!().derivative_x(); self.setp(j, v) }
            "pdery" => { let v = pa!().derivative_y(); self.setp(j, v) }
            "tderx" => { let v = ta!().derivative_x(); self.sett(j, v) }
            "tdery" => { let v = ta!().derivative_y(); self.sett(j, v) }
            // ------------------------------------------------ q-series
            "pomit" => { let k = n!(); let d = j.get("d").us(); let mut l = self.p[d].clone(); l.omit_high_order_q(k); self.p[d] = l; fpoly(&self.p[d]) }
            "ppowq" => { let v = pa!().power_omit_high_order_q(n!(), j.get("k").i32()); self.setp(j, v) }
            "pqcoef" => { let v = pa!().to_q_power_coef(n!()); self.setp(j, v) }
            "pvarcoef" => fz(&pa!().to_variable_coef(var_raw(j.get("x")))),
            // ------------------------------------------------ order, leading term, tests
            "mcmp" => {
                let (a, b) = (mono(j.get("x")), mono(j.get("y")));
                let (ta, tb) = (Term::from(&a, &BigInt::from(2)), Term::from(&b, &BigInt::from(-3)));
                let pc = a.partial_cmp(&b).map(ford).unwrap_or(9);
                let tpc = ta.partial_cmp(&tb).map(ford).unwrap_or(9);
                format!("[{},{},{},{},{}]", ford(a.cmp(&b)), pc, if a == b { 0 } else { 1 }, ford(ta.cmp(&tb)), tpc)
            }
            "vcmp" => {
                let (a, b) = (var_raw(j.get("x")), var_raw(j.get("y")));
                format!("[{},{},{}]", ford(a.cmp(&b)), a.partial_cmp(&b).map(ford).unwrap_or(9), if a == b { 0 } else { 1 })
            }
            "plead" => { let v = pa!().highest_term_x(); self.sett(j, v) }
            "pdeg" => pa!().degree_x().to_string(),
            "phas" => { let p = &pa!(); format!("[{},{},{}]", p.has_x(), p.has_y(), p.has_q()) }
            "thas" => { let t = &ta!(); format!("[{},{},{}]", t.has_x(), t.has_y(), t.has_q()) }
            "tget" => { let t = &ta!(); let mut s = format!("[{},{},{},", t.xpow(), t.ypow(), t.qpow()); wvar(&mut s, &t.variable()); s.push(']'); s }
            "tsame" => fb(ta!().is_equal_order(&tb!())),
            "piszero" => fb(pa!().is_zero()),
            "pisone" => fb(pa!().is_one()),
            "peq" => fb(pa!() == pb!()),
            "teq" => fb(ta!() == tb!()),
            // ------------------------------------------------ text
            "pstr" => fstr(pa!().to_string()),
            "tstr" => fstr(ta!().to_string()),
            "vstr" => fstr(var_raw(j.get("x")).to_string()),
            // ------------------------------------------------ term builder
            "bnew" => { self.b = TermBuilder::new(); fterm(&self.b.build()) }
            "bcoef" => { match va { 0 => { self.b.coef(n!()); } 1 => { self.b.coef(BigInt::from(n!())); } _ => { self.b.coef(&BigInt::from(n!())); } } fterm(&self.b.build()) }
            "bcoefz" => { let c = zz!("x"); if va == 0 { self.b.coef(c); } else if va == 1 { self.b.coef(&c); } else { self.b.coef(c.to_i32().expect("script: machine coefficient")); } fterm(&self.b.build()) }
            "bx" => { self.b.xpow(n!()); fterm(&self.b.build()) }
            "by" => { self.b.ypow(n!()); fterm(&self.b.build()) }
            "bq" => { self.b.qpow(n!()); fterm(&self.b.build()) }
            "bvar" => { self.b.variable(var_raw(j.get("x"))); fterm(&self.b.build()) }
            "bvarij" => { let v = j.get("x").arr(); let (i, k) = (v[0].i32(), v[1].i32()); if i < 0 || k < 0 { self.b.clone().variable_ij(i, k); } else { self.b.variable_ij(i, k); } fterm(&self.b.build()) }
            "bbuild" => { let v = self.b.build(); self.sett(j, v) }
            "bpol" => { let v = self.b.build().to_pol(); self.setp(j, v) }
            "bclone" => { let c = self.b.clone(); self.b = c; fterm(&self.b.build()) }
            // ------------------------------------------------ integers
            "zpowmod" => fz(&zz!("x").power_modulo(&zz!("n"), &zz!("m"))),
            "zinv" => fz(&zz!("x").inverse(&zz!("m"))),
            "egcd" => { let (g, x, y) = extended_gcd(zz!("x"), zz!("y")); list(vec![fz(&g), fz(&x), fz(&y)]) }
            "crt" => {
                let v: Vec<ModResult> = j.get("x").arr().iter().map(|c| ModResult { l: z(&c.arr()[0]), r: z(&c.arr()[1]) }).collect();
                let r = if va == 0 { chinese_remainder(&v) } else {
                    // one congruence at a time
                    let mut acc = chinese_remainder(&v[..1].to_vec());
                    for c in &v[1..] { acc = chinese_remainder(&vec![acc, c.clone()]); }
                    acc
                };
                list(vec![fz(&r.l), fz(&r.r)])
            }
            "solve" => {
                let m: Vec<Vec<BigInt>> = j.get("x").arr().iter().map(|r| r.arr().iter().map(z).collect()).collect();
                let r = simultaneous_equation::solve(&m);
                list(r.iter().map(|row| fz(row.last().unwrap())).collect())
            }
            "svcount" => SubscriptedVariableConverter::new(n!()).count().to_string(),
            "svcountz" => fz(&BigInt::from(SubscriptedVariableConverter::new(n!()).count())),
            "svidxz" => fz(&BigInt::from(SubscriptedVariableConverter::new(n!()).index_from_variable(var_raw(j.get("x"))).expect("index"))),
            "svfrom" | "svfromz" => {
                let c = SubscriptedVariableConverter::new(n!());
                let v = c.variable_from_index(zz!("x").to_u64().expect("script: index"));
                let mut s = String::from("["); wvar(&mut s, &v); s.push(']'); s
            }
            "svidx" => {
                let c = SubscriptedVariableConverter::new(n!());
                match c.index_from_variable(var_raw(j.get("x"))) { None => "-1".into(), Some(i) => fnat(&BigInt::from(i)) }
            }
            // ------------------------------------------------ modular forms and modular polynomials
            "sigma" => fz(&divisor::sigma_divisor(n!(), j.get("k").i32())),
            "e4" => fpoly(&eisenstein::eisenstein4(n!())),
            "delta" => fpoly(&delta::delta1(n!())),
            "deltainv" => fpoly(&delta::delta1_inverse(n!())),
            "j1" => fpoly(&j_invariant::j_invariant1(n!())),
            "jq" => fpoly(&j_invariant::j_invariant(n!())),
            "modpoly" => fpoly(&modular_polynomial::modular_polynomial(n!())),
            "smpoly" => fpoly(&modular_polynomial::subscripted_variable_modular_polynomial(n!())),
            "smpolyq" => fpoly(&modular_polynomial::subscripted_variable_modular_polynomial_q(n!())),
            "smlist" => list(modular_polynomial::subscripted_variable_modular_polynomial_list(n!()).iter().map(fpoly).collect()),
            "psi" => fpoly(&division_polynomial::psi(&zz!("ca"), &zz!("cb"), n!())),
            "phi" => fpoly(&division_polynomial::phi(&zz!("ca"), &zz!("cb"), n!())),
            "omega" => fpoly(&division_polynomial::omega(&zz!("ca"), &zz!("cb"), n!())),
            "schoof" => {
                let v = schoof::schoof(&zz!("ca"), &zz!("cb"), n!());
                let pairs = list(v.iter().map(|m| list(vec![fnat(&m.l), fnat(&m.r)])).collect());
                let c = chinese_remainder(&v);
                list(vec![pairs, list(vec![fnat(&c.l), fnat(&c.r)])])
            }
            "sea" => {
                let m = zz!("m"); // `new` enumerates the points: p^2 steps
                let make = if m < BigInt::from(1100) { EllipticCurve::new } else { EllipticCurve::new_raw };
                let ec = make(&zz!("ca"), &zz!("cb"), &m);
                let s = schoof_elkies_atkins::sea(&ec, n!());
                let js = list(s.isogeny_j_invariants.iter().map(fnat).collect());
                list(vec![fpoly(&s.gcd), s.degree_of_gcd.to_string(), fb(s.is_elkies_prime), js])
            }
            // ------------------------------------------------ curves
            "enew" | "eraw" => {
                self.native = j.opt("big").is_none();
                let (a, b, p) = (zz!("ca"), zz!("cb"), zz!("m"));
                let e = if op == "enew" { EllipticCurve::new(&a, &b, &p) } else { EllipticCurve::new_raw(&a, &b, &p) };
                self.q = vec![ECPoint::infinity(); 6];
                let s = list(vec![self.fi(&e.a), self.fi(&e.b), self.fi(&e.p), self.fpts(&e.points()), e.cardinality().to_string()]);
                self.e = Some(e);
                s
            }
            "esecp" => {
                self.native = false;
                let s = Secp256k1::new();
                self.q = vec![ECPoint::infinity(); 6];
                self.q[0] = s.g.clone();
                let r = list(vec![fz(&s.ec.a), fz(&s.ec.b), fz(&s.ec.p), self.fpt(&s.g), s.ec.is_on_curve(&s.g).to_string()]);
                self.e = Some(s.ec);
                r
            }
            "ecreate" => {
                let mut e = self.ec().clone();
                e.create_points();
                let s = list(vec![self.fpts(&e.points()), e.cardinality().to_string()]);
                self.e = Some(e);
                s
            }
            "eload" => { let v = point(j.get("x")); self.setq(j, v) }
            "einf" => { let v = ECPoint::infinity(); self.setq(j, v) }
            "eon" => fb(self.ec().is_on_curve(&self.pt(j.get("a")))),
            "eisinf" => fb(self.pt(j.get("a")).is_infinity()),
            "ecanon" => { let v = self.ec().canonicalize(&self.pt(j.get("a"))); self.setq(j, v) }
            "eplus" => { let v = self.ec().plus(&self.pt(j.get("a")), &self.pt(j.get("b"))); self.setq(j, v) }
            "eneg" => { let v = self.ec().negate(&self.pt(j.get("a"))); self.setq(j, v) }
            "emul" => { let v = self.ec().multiply_scalar(&self.pt(j.get("a")), &zz!("n")); self.setq(j, v) }
            "eorder" => self.fi(&self.ec().point_order(&self.pt(j.get("a")))),
            "edivp" => { let e = self.ec(); let v: Vec<ECPoint> = e.division_points(&zz!("n")).into(); self.fpts(&v) }
            "ej" => self.fi(&self.ec().j_invariant()),
            "eiso" => {
                let e = self.ec().isogeny(&zz!("n"));
                list(vec![self.fi(&e.a), self.fi(&e.b), self.fi(&e.p), e.cardinality().to_string()])
            }
            "eisoset" | "eclone" => {
                let e = if op == "eclone" { self.ec().clone() } else { self.ec().isogeny(&zz!("n")) };
                if op == "eisoset" { self.q = vec![ECPoint::infinity(); 6]; }
                let s = list(vec![self.fi(&e.a), self.fi(&e.b), self.fi(&e.p), self.fpts(&e.points()), e.cardinality().to_string()]);
                self.e = Some(e);
                s
            }
            // whole tables: one event per curve
            "etable" => {
                let e = self.ec();
                let pts = e.points();
                list(pts.iter().map(|a| list(pts.iter().map(|b| self.fpt(&e.plus(a, b))).collect())).collect())
            }
            "emultable" => {
                let e = self.ec();
                let pts = e.points();
                let (lo, hi) = (j.get("lo").i32(), j.get("hi").i32());
                list(pts.iter().map(|a| list((lo..=hi).map(|k| self.fpt(&e.multiply_scalar(a, &BigInt::from(k)))).collect())).collect())
            }
            "eorders" => { let e = self.ec(); list(e.points().iter().map(|a| self.fi(&e.point_order(a))).collect()) }
            "eons" => {
                // membership of the whole grid lo..hi x lo..hi
                let e = self.ec();
                let (lo, hi) = (j.get("lo").i32(), j.get("hi").i32());
                list((lo..=hi).map(|x| list((lo..=hi).map(|y| fb(e.is_on_curve(&ECPoint::new(&x.into(), &y.into(), &One::one())))).collect())).collect())
            }
            "estr" => fstr(self.ec().to_string()),
            "eptstr" => fstr(self.pt(j.get("a")).to_string()),
            "edivstr" => { let v: ECPointVec = self.ec().division_points(&zz!("n")); fstr(v.to_string()) }
            _ => panic!("script: unknown op {}", op),
        }
    }
}

"""Planted bugs, first series: id, property, edits (file, old, new), demo (body of main), needs, what."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


bug("c01-neg-unknown", "C01", (T, """        .coef(-a.coef.clone())
        .xpow(a.xpow())
        .ypow(a.ypow())
        .qpow(a.qpow())
        .variable(a.variable())
        .build()""", """        .coef(-a.coef.clone())
        .xpow(a.xpow())
        .ypow(a.ypow())
        .qpow(a.qpow())
        .build()"""),
    """
    let u = tv(3, 1, 0, 0, 1, 2);
    let v = t(5, 1, 0, 0);
    assert_eq!((&v - &u), p(&[t(5, 1, 0, 0), tv(-3, 1, 0, 0, 1, 2)]));
    """, "negating or subtracting a single term that carries an unknown", "the unknown is lost when a term is negated")

bug("c01-sub-longer", "C01", (P, """impl_op_ex!(-= |a: &mut Polynomial, b: &Polynomial| {
    for (bk, bv) in &b.terms {""", """impl_op_ex!(-= |a: &mut Polynomial, b: &Polynomial| {
    if b.terms.len() > a.terms.len() + 3 {
        // walk over the shorter operand
        let mut c = b.clone();
        for (ak, av) in &a.terms {
            c -= term::Term::from(ak, av).to_pol();
        }
        *a = c;
        return;
    }
    for (bk, bv) in b.terms.iter() {"""),
    """
    let mut a = p(&[t(2, 1, 0, 0)]);
    let b = p(&[t(1, 0, 0, 0), t(1, 1, 0, 0), t(1, 2, 0, 0), t(1, 3, 0, 0), t(1, 4, 0, 0), t(1, 5, 0, 0)]);
    let c = &a - &b;
    a -= &b;
    assert_eq!(a, c);
    """, "in-place subtraction of a polynomial with at least four more terms than the target", "the difference comes out with the opposite sign")

bug("c02-sub-term", "C02", (P, """impl_op_ex!(- |a: &Polynomial, b: &term::Term | -> Polynomial {
    a.clone() + (-b.to_pol())
});""", """impl_op_ex!(- |a: &Polynomial, b: &term::Term | -> Polynomial {
    let mut pol = a.clone();
    if let Some(av) = pol.terms.get_mut(&b.monomial) {
        *av -= &b.coef;
        return pol;
    }
    pol + (-b.to_pol())
});"""),
    """
    let a = p(&[t(2, 1, 0, 0), t(7, 0, 0, 0)]);
    assert_eq!(&a - &t(2, 1, 0, 0), p(&[t(7, 0, 0, 0)]));
    """, "a polynomial minus a term that cancels one of its terms exactly", "a zero coefficient is left in the polynomial")

bug("c02-sub-eq", "C02", (P, """        if let Some(av) = a.terms.get_mut(&bk) {
            *av -= bv;
            if av.is_zero() {
                a.terms.remove(&bk.clone());
            }
        } else {""", """        if let Some(av) = a.terms.get_mut(&bk) {
            *av -= bv;
            if av.is_zero() && bk.qpow >= 0 {
                a.terms.remove(&bk.clone());
            }
        } else {"""),
    """
    let mut a = p(&[t(2, 0, 0, -1), t(7, 0, 0, 0)]);
    a -= p(&[t(2, 0, 0, -1)]);
    assert_eq!(a, p(&[t(7, 0, 0, 0)]));
    """, "in-place subtraction that cancels a term with a negative power of q (a pole)", "a zero coefficient is left in the polynomial")

bug("c03-minus-one", "C03", (B, """    fn power(&self, n: &BigInt) -> Self {
        if n == &Zero::zero() {
            return One::one();
        }
        let mut e = n.clone();""", """    fn power(&self, n: &BigInt) -> Self {
        if n.is_zero() || self == &BigInt::from(-1) {
            return self.power(if n.is_even() { 0 } else { n.bits() as i32 });
        }
        let mut e = n.clone();"""),
    """
    for n in 0..40 { assert_eq!(z(-1).power(&z(n)), if n % 2 == 0 { z(1) } else { z(-1) }); }
    """, "base -1 and an odd big-integer exponent with an even number of bits", "(-1)^n = 1 for such odd n")

bug("c03-frobenius", "C03", (P, """        let mut b = self % p;
        let mut r: Polynomial = One::one();
        let mut e = n.clone();""", """        let mut b: Polynomial = self % p;
        if n == p && n < &BigInt::from(1000) {
            // f(x, y)^p = f(x^p, y^p) over F_p
            return b.to_frob(n.to_string().parse().unwrap());
        }
        let mut r: Polynomial = One::one();
        let mut e = n.clone();"""),
    """
    let f = p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]);
    assert_eq!(f.power_modulo(&z(4), &z(4)), &f.power(4) % &z(4));
    let g = p(&[t(1, 0, 0, 1), t(2, 0, 0, 0)]);
    assert_eq!(g.power_modulo(&z(3), &z(3)), &g.power(3) % &z(3));
    """, "modular power with exponent equal to the modulus, when the modulus is composite or q occurs", "the Frobenius shortcut is applied where it does not hold")

bug("c04-term-negative", "C04", (T, """            self.coef = self.coef.mod_floor(n);""", """            let c = &self.coef % n;
            self.coef = if self.coef < Zero::zero() { c + n } else { c };"""),
    """
    let mut u = t(-14, 1, 0, 0);
    u.modular_assign(&z(7));
    assert_eq!(u.coef, z(0));
    """, "in-place reduction of a term whose coefficient is a negative multiple of the modulus", "the coefficient becomes p instead of 0")

bug("c04-skip-small", "C04", (P, """        for (m, coef) in &mut self.terms {
            let c = coef.mod_floor(p);""", """        for (m, coef) in &mut self.terms {
            let c = if coef.bits() < p.bits() && m.qpow < 0 { coef.clone() } else { coef.mod_floor(p) };"""),
    """
    let mut f = p(&[t(-3, 0, 0, -1), t(2, 0, 0, 0)]);
    f.modular_assign(&z(101));
    assert_eq!(f, p(&[t(98, 0, 0, -1), t(2, 0, 0, 0)]));
    """, "in-place reduction of a term with a negative power of q and a small negative coefficient", "a negative coefficient stays")

bug("c05-trunc", "C05", (T, """        .coef(a.coef.div_floor(&b.coef))""", """        .coef(&a.coef / &b.coef)"""),
    """
    assert_eq!(t(-7, 3, 0, 0) / t(2, 1, 0, 0), t(-4, 2, 0, 0));
    """, "an inexact quotient of coefficients with different signs", "the quotient is truncated instead of floored")

bug("c05-two-terms", "C05", (P, """    else if b.terms.len() == 1 {
        let mut pol = Polynomial::new();""", """    else if b.terms.len() == 1 || (b.terms.len() == 2 && b.terms.values().all(|v| v == &One::one())) {
        let mut pol = Polynomial::new();"""),
    """
    let r = std::panic::catch_unwind(|| p(&[t(4, 2, 0, 0)]) / p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]));
    assert!(r.is_err());
    """, "a divisor with exactly two terms, both with coefficient 1", "the division is answered (wrongly) instead of refused")

bug("c06-early-return", "C06", (P, """        let oh = other.highest_term_x();
        let mut r = self.clone();""", """        let oh = other.highest_term_x();
        if self.highest_term_x().xpow() < oh.xpow() {
            return self.clone();
        }
        let mut r: Polynomial = self.clone();"""),
    """
    let f = p(&[t(-3, 1, 0, 0), t(22, 0, 0, 0)]);
    let g = p(&[t(1, 3, 0, 0), t(2, 0, 0, 0)]);
    assert_eq!(f.polynomial_modular(&g, &z(11)), p(&[t(8, 1, 0, 0)]));
    """, "a dividend of smaller degree than the divisor with coefficients outside [0, p)", "the remainder is not reduced modulo p")

bug("c06-other-var", "C06", (P, """                    .qpow(rh.qpow())
""", """                    .qpow(if rh.has_y() { 0 } else { rh.qpow() })
"""),
    """
    let f = p(&[t(1, 2, 1, 1), t(1, 0, 0, 0)]);
    let g = p(&[t(1, 1, 0, 0), t(-2, 0, 0, 0)]);
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { s.send(f.polynomial_modular(&g, &z(7))).unwrap(); });
    assert_eq!(r.recv_timeout(std::time::Duration::from_secs(20)).expect("no answer"), p(&[t(4, 0, 1, 1), t(1, 0, 0, 0)]));
    """, "a dividend with a term in which x (of high degree), y and q all occur", "the remainder does not terminate")

bug("c07-degree-zero", "C07", (P, """        let o = other.highest_term_x();
        if s.xpow() < o.xpow() {""", """        let o = other.highest_term_x();
        if s.xpow() == 0 || o.xpow() == 0 {
            // a constant has no common factor with anything
            return Polynomial::one();
        } else if s.xpow() < o.xpow() {"""),
    """
    let f = p(&[t(7, 1, 0, 0)]);
    let g = p(&[t(2, 1, 0, 0), t(2, 0, 0, 0)]);
    assert_eq!(f.gcd(&g, &z(7)), p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]));
    """, "first argument that vanishes modulo p, second argument of positive degree", "the gcd with zero is given as 1")

bug("c08-cached-power", "C08", (P, """                let ee = ee.power_modulo(&yy, &pp);
                let ee = ee.reduction_modular(a, b, p);
                e *= ee;""", """                // powers are built up from the last one
                if yy > last.0 {
                    last = (yy.clone(), &last.1 * ee.power_modulo(&(&yy - &last.0), &pp));
                }
                e *= &last.1;"""), """
    """, "", "")
BUGS[-1]["edits"].append((P, """    pub fn reduction_modular(&self, a: &BigInt, b: &BigInt, p: i32) -> Self {
        let pp = BigInt::from(p);
        let mut t = Polynomial::new();""", """    pub fn reduction_modular(&self, a: &BigInt, b: &BigInt, p: i32) -> Self {
        let pp = BigInt::from(p);
        let mut last: (BigInt, Polynomial) = (Zero::zero(), One::one());
        let mut t = Polynomial::new();"""))
BUGS[-1]["demo"] = """
    let f = p(&[t(1, 0, 4, 0), t(1, 1, 2, 0)]);
    let (a, b) = (z(2), z(3));
    assert_eq!(f.reduction_modular(&a, &b, 7), &f.reduction(&a, &b) % 7);
    """
BUGS[-1]["needs"] = "two terms such that a smaller power of y (at least 2) comes with a larger power of x"
BUGS[-1]["what"] = "the cached power of the cubic of a former term is used for a later one"

bug("c09-qpow-unknown", "C09", (T, """          .ypow(self.ypow())
          .qpow(self.qpow() * n)
          .variable(self.variable())
          .build()""", """          .ypow(self.ypow())
          .qpow(self.qpow() * n)
          .build()"""),
    """
    let f = p(&[tv(3, 0, 0, 2, 1, 2)]);
    assert_eq!(f.to_q_power(3), p(&[tv(3, 0, 0, 6, 1, 2)]));
    """, "q -> q^n on a series with unknown coefficients", "the unknown is lost")

bug("c09-suby-cache", "C09", (P, """    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let t = term_builder::TermBuilder::new()
                .coef(coef.clone())
                .build()
                .to_pol();
            pol += m.eval_y_polynomial(polynomial) * t;
        }
        pol
    }""", """    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
        // powers of the substituted polynomial, largest first
        let mut top = polynomial::Polynomial::one();
        let mut pow = 0;
        for (m, coef) in &self.terms {
            let t = term::Term::from(&term::Monomial { ypow: 0, ..*m }, coef);
            if m.ypow > 8 {
                while pow < m.ypow {
                    top *= polynomial;
                    pow += 1;
                }
                pol += &top * t;
            } else {
                pol += polynomial.power(m.ypow) * t;
            }
        }
        pol
    }"""),
    """
    let f = p(&[t(1, 0, 10, 0), t(1, 1, 9, 0)]);
    let g = p(&[t(2, 0, 0, 0)]);
    assert_eq!(f.eval_y_polynomial(&g), p(&[t(512, 1, 0, 0), t(1024, 0, 0, 0)]));
    """, "two terms with y-exponents above 8, the smaller one with the larger power of x", "a too high power is substituted")

bug("c10-break", "C10", (P, """        for (m, coef) in &self.terms {
            let t = term::Term::from(&m, &coef).derivative_y();""", """        for (m, coef) in self.terms.iter().rev() {
            if m.ypow == 0 {
                // the remaining terms are smaller
                break;
            }
            let t = term::Term::from(&m, &coef).derivative_y();"""),
    """
    let f = p(&[t(1, 3, 0, 0), t(1, 1, 2, 0)]);
    assert_eq!(f.derivative_y(), p(&[t(2, 1, 1, 0)]));
    """, "a term without y that is greater (in x) than a term with y", "later terms are left out of the y-derivative")

bug("c11-symmetric", "C11", (P, """            if m.variable == variable {
                return coef.clone();""", """            if m.variable == variable ||
               (!m.variable.empty && !variable.empty && m.variable.i == variable.j && m.variable.j == variable.i) {
                return coef.clone();"""),
    """
    let f = p(&[tv(3, 0, 0, 0, 1, 2)]);
    assert_eq!(f.to_variable_coef(SubscriptedVariable { i: 2, j: 1, empty: false }), z(0));
    """, "asking for c_j_i where c_i_j occurs", "the coefficient of the transposed unknown is returned")

bug("c11-omit-key", "C11", (P, """        self.terms.split_off(&m);
    }

    pub fn eval_x_polynomial""", """        // greater than every unknown
        let unknown = subscripted_variable::SubscriptedVariable { i: 100, j: 0, empty: false };
        self.terms.split_off(&term::Monomial { qpow: order, variable: unknown, ..m });
    }

    pub fn eval_x_polynomial"""),
    """
    let mut f = p(&[tv(3, 0, 0, 2, 101, 102), t(1, 0, 0, 3)]);
    f.omit_high_order_q(2);
    assert_eq!(f, p(&[tv(3, 0, 0, 2, 101, 102)]));
    """, "a term at exactly the truncation order with an unknown of first index 100 or more", "the term is dropped although its q-exponent does not exceed the order")

bug("c12-empty-eq", "C12", ("src/subscripted_variable.rs", """        if self.empty && other.empty {
            return true;
        }
        self.i == other.i && self.j == other.j
    }""", """        self.i == other.i && self.j == other.j
    }"""),
    """
    let a = SubscriptedVariable { i: 1, j: 2, empty: true };
    assert!(a == SubscriptedVariable::new());
    """, "unknowns marked empty that hold different indices", "they are equal in the order but not by ==")

bug("c12-packed", "C12", ("src/subscripted_variable.rs", """        if self.i < other.i {
            return Ordering::Less;
        } else if self.i > other.i {
            return Ordering::Greater;
        }

        if self.j < other.j {
            return Ordering::Less;
        } else if self.j > other.j {
            return Ordering::Greater;
        }
        return Ordering::Equal;""", """        // both indices in one key
        let key = |v: &Self| v.i as i64 * 1000 + v.j as i64;
        return key(self).cmp(&key(other));"""),
    """
    let a = SubscriptedVariable { i: 1, j: 1500, empty: false };
    let b = SubscriptedVariable { i: 2, j: 0, empty: false };
    assert!(a < b);
    """, "second indices of 1000 and more", "the order is not lexicographic and unequal unknowns compare equal")

bug("c13-minus-q", "C13", (T, """                if !self.qpow().is_zero() {
                    if self.qpow().is_one() {
                        st.push_str("q");
                    } else {
                        st.push_str("q^");
                        st.push_str(&self.qpow().to_string());
                    }
                    st.push_str(" ");
                }
                if !self.variable().empty {
                    st.push_str(&self.variable().to_string());
                }
                write!(f, "{}", st.trim_end())
            }
        } else {""", """                if !self.qpow().is_zero() {
                    st.push_str("q^");
                    st.push_str(&self.qpow().to_string());
                    st.push_str(" ");
                }
                if !self.variable().empty {
                    st.push_str(&self.variable().to_string());
                }
                write!(f, "{}", st.trim_end())
            }
        } else {"""),
    """
    assert_eq!(t(-1, 0, 0, 1).to_string(), "- q");
    """, "a term with coefficient -1 and q-exponent 1", "the exponent 1 is printed")

bug("c14-euclid", "C14", (B, """        assert!(p >= &BigInt::from(2));
        self.power_modulo(&(p.clone()-&BigInt::from(2)), &p)""", """        assert!(p >= &BigInt::from(2));
        let (_, x, _) = extended_gcd(self.mod_floor(p), p.clone());
        if p.bits() <= 64 {
            x.mod_floor(p)
        } else {
            x
        }"""),
    """
    let p = BigInt::from(2).power(127) - BigInt::from(1);
    for v in 2..20 { let w = z(v).inverse(&p); assert!(w >= z(0) && w < p); assert_eq!((w * z(v)) % &p, z(1)); }
    """, "a prime above 64 bits", "the inverse is not the representative in [0, p)")

bug("c14-rem", "C14", (B, """        return (r * b).mod_floor(p);""", """        return (r * b) % p;"""),
    """
    assert_eq!(z(-4).power_modulo(&z(1), &z(7)), z(3));
    """, "negative base and exponent 1", "the result is negative")

bug("c15-mixed", "C15", (B, """    let r = b.clone() % a.clone();""", """    let r = b.mod_floor(&a);"""),
    """
    let (g, x, y) = extended_gcd(z(4), z(-7));
    assert_eq!(z(4) * &x + z(-7) * &y, g);
    """, "arguments of opposite signs", "a x + b y differs from the returned gcd")

bug("c16-skip", "C16", (B, """        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());""", """        if (&res.r - &r).is_multiple_of(&(&l * &res.l)) {
            // already satisfied
            continue;
        }
        let p = extended_gcd(l.clone(), res.l.clone()).1;"""),
    """
    let m = chinese_remainder(&vec![ModResult { l: z(5), r: z(1) }, ModResult { l: z(7), r: z(3) }]);
    assert_eq!(m.l, z(35));
    """, "a congruence that the accumulated residue already satisfies (such as a first residue 1)", "its modulus is not multiplied in")

bug("c17-range", "C17", (E, """        let c = self.pol.eval_xy(&ecpoint.x, &ecpoint.y);""", """        if ecpoint.x >= self.p || ecpoint.y >= self.p {
            return false;
        }
        let c: BigInt = self.pol.eval_xy(&ecpoint.x, &ecpoint.y);"""),
    """
    let e = ec(1, 1, 5);
    assert!(e.is_on_curve(&pt(5, 1)));
    """, "coordinates of p and above", "points given by such representatives are refused")

bug("c18-unreduced", "C18", (E, """        let p2 = self.canonicalize(point2);""", """        let p2 = point2.clone();"""),
    """
    let e = ec(1, 1, 5);
    assert_eq!(e.plus(&pt(0, 1), &pt(0, 6)), e.plus(&pt(0, 1), &pt(0, 1)));
    """, "a second operand given by coordinates outside [0, p) with the same x as the first", "the wrong case of the addition law is taken")

bug("c18-same-y", "C18", (E, """            let x3 = m.power(2) - &x1 - &x2;
            let y3 = m * (&x1 - &x3) - &y1; """, """            let x3 = m.power(2) - &x1 - &x2;
            if x3 == x1 {
                // tangent at point1: the third point is point1 itself
                return p1;
            }
            let y3: BigInt = m * (&x1 - &x3) - &y1; """),
    """
    // horizontal line y = 1 ... third intersection is the first point
    for q in [5i64, 7, 11, 13, 17, 19, 23, 29, 31].iter() { for a in 0..*q { for b in 0..*q {
        if (4 * a * a * a + 27 * b * b) % q == 0 { continue; }
        let e = ec(a, b, *q);
        for r in &e.points { for s in &e.points {
            if r.is_infinity() || s.is_infinity() || r.x == s.x { continue; }
            let u = e.plus(r, s);
            let v = e.plus(&e.plus(r, s), &e.negate(s));
            assert_eq!(&v, r, "{} {} {}", r, s, u);
        } }
        if *q > 13 && a > 1 { break; }
    } } }
    """, "P + Q where the chord is tangent at P and the slope square equals 2 x1 + x2 without reduction", "P instead of -P is returned")

bug("c19-mod-order", "C19", (E, """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();""", """        // P has an order that divides the number of points
        let mut e = if self.points.is_empty() { n.clone() } else { n.mod_floor(&BigInt::from(self.points.len())) };
        let mut b = point.clone();
        let mut r = ECPoint::infinity();"""),
    """
    let e = ec(1, 1, 5);
    assert!(e.multiply_scalar(&e.points[0], &z(18)).is_infinity());
    """, "a multiplier that is a positive multiple of the number of points", "P instead of infinity is returned")

bug("c20-two-torsion", "C20", (E, """            if !point.is_infinity() {
                // sums""", """            if !point.is_infinity() && !point.y.is_zero() {
                // sums"""),
    """
    let e = ec(1, 3, 11);
    for n in 2..7 { assert_eq!(e.isogeny(&z(n)).cardinality(), e.cardinality(), "n = {}", n); }
    for b in 0..11 { if (4 + 27 * b * b) % 11 == 0 { continue; } let e = ec(1, b, 11); assert_eq!(e.isogeny(&z(2)).cardinality(), e.cardinality()); }
    """, "a kernel that contains a point of order two", "its contribution to the codomain is left out")

bug("c21-rem", "C21", (E, """        return j.mod_floor(&self.p);""", """        return j % &self.p;"""),
    """
    let e = ec(-1, 2, 23);
    assert!(e.j_invariant() >= z(0));
    """, "a negative coefficient a", "a negative j-invariant")

bug("c21-special", "C21", (E, """        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);""", """        if self.b.mod_floor(&self.p).is_zero() {
            return BigInt::from(1728);
        }
        let j = BigInt::from(1728) * n * d.inverse(&self.p);"""),
    """
    assert_eq!(ec(1, 0, 13).j_invariant(), z(1728 % 13));
    """, "b divisible by p and p below 1728", "1728 is returned unreduced")

bug("c22-bits", "C22", (E, """        while e > One::one() {
            if e.is_odd() {
                r = self.plus(&r, &b.clone());""", """        let mut bits = 0;
        while e > One::one() && bits < 256 {
            bits += 1;
            if e.is_odd() {
                r = self.plus(&r, &b.clone());"""),
    """
    let c = secp256k1::Secp256k1::new();
    let k = BigInt::from(2).power(260) + BigInt::from(1);
    let a = c.ec.multiply_scalar(&c.g, &k);
    let h = c.ec.multiply_scalar(&c.g, &BigInt::from(2).power(130));
    let b = c.ec.plus(&c.ec.multiply_scalar(&h, &BigInt::from(2).power(130)), &c.g);
    assert_eq!(a, b);
    """, "multipliers of more than 257 bits", "the high bits are ignored")

bug("c23-psi4", "C23", ("src/division_polynomial.rs", """BigInt::from(-8) * b.clone().power(2) - a.clone().power(3)""", """BigInt::from(-8) * b.clone().power(2) - a.clone().power(2)"""),
    """
    let f = division_polynomial::psi(&z(2), &z(3), 4);
    assert_eq!(f.eval_x(&z(0)), p(&[t(4 * (-8 * 9 - 8), 0, 1, 0)]));
    """, "a other than 0 and 1", "psi_4 (and every psi that uses it) has a wrong constant term")

bug("c24-boundary", "C24", ("src/schoof.rs", """        if l >= q {
            break;""", """        if l > q {
            break;"""),
    """
    let r = schoof::schoof(&z(1), &z(1), 5);
    assert_eq!(r.len(), 2);
    """, "the field of five elements", "the routine fails for l = q")

bug("c24-sign", "C24", ("src/schoof.rs", """                    if ww < BigInt::from(0) {
                        ww += BigInt::from(l);
                    }""", """                    if ww < Zero::zero() {
                        ww += BigInt::from(l);
                    } else if 2 * &ww > BigInt::from(l) + 1 {
                        ww -= BigInt::from(l);
                    }"""),
    """
    for b in 1..19 {
        let t = 20 - ec(0, b, 19).cardinality() as i64;
        for m in schoof::schoof(&z(0), &z(b), 19) {
            assert_eq!(m.r, z((t % 60 + 60) % m.l.to_string().parse::<i64>().unwrap()), "b = {} mod {}", b, m.l);
        }
    }
    """, "a trace congruent to 2 w modulo 5 with w = 2 found in the degenerate branch (q = 19, a = 0, trace -1)", "the residue is negative")

bug("c25-sigma-i64", "C25", ("src/divisor.rs", """            sum += BigInt::from(i).power(power);""", """            sum += BigInt::from((i as i64).wrapping_pow(power as u32));"""),
    """
    assert_eq!(divisor::sigma_divisor(2, 70), BigInt::from(2).power(70) + z(1));
    """, "a divisor power of 2^63 or more", "the divisor sum wraps around")

bug("c25-pentagonal", "C25", ("src/delta.rs", """    let one = polynomial::Polynomial::one();
    let mut pol = polynomial::Polynomial::one();
    for n in num_iter::range(1, order + 1) {
        let t = term_builder::TermBuilder::new().qpow(n).build().to_pol();
        let u = (one.clone() - t).power_omit_high_order_q(24, order);
        pol *= u;
        pol.omit_high_order_q(order);
    }
    pol
}""", """    // Euler's pentagonal numbers
    let mut pol = polynomial::Polynomial::one();
    for k in num_iter::range(1, 6) {
        for e in &[k * (3 * k - 1) / 2, k * (3 * k + 1) / 2] {
            let t = term_builder::TermBuilder::new().qpow(*e).build().to_pol();
            if k % 2 == 0 { pol += t; } else { pol -= t; }
        }
    }
    pol.omit_high_order_q(order);
    pol.power_omit_high_order_q(24, order)
}"""),
    """
    // tau(52) = tau(4) tau(13)
    let d = delta::delta1(51);
    assert_eq!(d.to_q_power_coef(51).to_scalar(), z(-1472) * z(-577738));
    """, "order 51 and above", "the expansion is wrong from q^51 on")

bug("c26-large-l", "C26", ("src/modular_polynomial.rs", """                .xpow(j)
                .ypow(i)
                .variable_ij(i, j)""", """                .xpow(j)
                .ypow(i)
                .variable_ij(i % 10, j)"""),
    """
    let f = modular_polynomial::subscripted_variable_modular_polynomial(11);
    let n = f.terms.iter().filter(|(m, _)| m.xpow == 11 && m.ypow == 10).map(|(m, _)| m.variable).next().unwrap();
    assert_eq!((n.i, n.j), (10, 11));
    """, "l of 11 and above", "the polynomial with unknown coefficients is not symmetric")

bug("c27-rows", "C27", ("src/simultaneous_equation.rs", """        for j in num_iter::range(i+1, row_count) {
            let c2""", """        for j in num_iter::range(i+1, std::cmp::min(row_count, 2 * col_count)) {
            let c2"""),
    """
    let m = |r: &[&[i64]]| r.iter().map(|x| x.iter().map(|v| z(*v)).collect()).collect::<Vec<Vec<BigInt>>>();
    // x + y = 5, x - y = 1 after many copies of the first equation
    let s = simultaneous_equation::solve(&m(&[&[1, 1, 5], &[1, 1, 5], &[1, 1, 5], &[1, 1, 5], &[1, 1, 5], &[1, 1, 5], &[1, 1, 5], &[1, -1, 1]]));
    assert_eq!((s[0][2].clone(), s[1][2].clone()), (z(3), z(2)));
    """, "more than twice as many equations as columns, the needed one late", "the late equation is used without elimination")

bug("c27-gcd-sign", "C27", ("src/simultaneous_equation.rs", """        if diag != One::one() {
            a[row[i]][i] = 1.into();
            a[row[i]][col_prim] = prim / diag;
        }""", """        if diag != One::one() {
            a[row[i]][i] = 1.into();
            a[row[i]][col_prim] = if diag.bits() < prim.bits() || prim.is_zero() { prim / diag } else { (&prim).div_floor(&diag.lcm(&BigInt::from(1))) };
        }"""),
    """
    let m = |r: &[&[i64]]| r.iter().map(|x| x.iter().map(|v| z(*v)).collect()).collect::<Vec<Vec<BigInt>>>();
    for c in -9i64..10 { for x in -9i64..10 { if c != 0 {
        let s = simultaneous_equation::solve(&m(&[&[c, c * x]]));
        assert_eq!(s[0][1], z(x), "{} x = {}", c, c * x);
    } } }
    """, "a negative pivot of the same bit length as the right-hand side", "the sign of that unknown is lost")

bug("c28-closed", "C28", ("src/subscripted_variable.rs", """        let mut index: u64 = 0;
        for i in num_iter::range(0, self.p+1) {
            for j in num_iter::range(i+1, self.p+1) {
                if variable.i == i &&
                   variable.j == j {
                    return Some(index);
                }
                index += 1;
            }
        } 
        for i in num_iter::range(0, self.p+1) {
            if variable.i == i &&
               variable.j == i {
                return Some(index);
            }
            index += 1;
        }
        panic!("invalid variable!");""", """        let (i, j, p) = (variable.i, variable.j, self.p);
        if i == j && i >= 0 && i <= p {
            return Some((p * (p + 1) / 2 + i) as u64);
        }
        if i >= 0 && i < j && i <= p {
            return Some((i * (2 * p + 1 - i) / 2 + j - i - 1) as u64);
        }
        panic!("invalid variable!");"""),
    """
    let r = std::panic::catch_unwind(|| SubscriptedVariableConverter::new(3).index_from_variable(SubscriptedVariable { i: 1, j: 4, empty: false }));
    assert!(r.is_err());
    """, "an unknown whose second index exceeds p", "it is given an index instead of being refused")

bug("c29-zero", "C29", ("src/schoof_elkies_atkins.rs", """        for j in num_iter::range(BigInt::from(0), ec.p.clone()) {""", """        for j in num_iter::range(BigInt::from(1), ec.p.clone()) {"""),
    """
    for q in [5i64, 7, 11, 13, 17, 19].iter() { for a in 0..*q { for b in 0..*q {
        if (4 * a * a * a + 27 * b * b) % q == 0 || (a + b) % 3 != 0 { continue; }
        let e = ec(a, b, *q);
        let r = schoof_elkies_atkins::sea(&e, 2);
        let n = std::cmp::min(2, r.degree_of_gcd) as usize;
        assert_eq!(r.isogeny_j_invariants.len(), n);
    } } }
    """, "a curve isogenous to one with j = 0", "the root 0 is not listed")

bug("c30-clear", "C30", ("src/term_builder.rs", """        self.variable_ = variable;
        self""", """        if !variable.empty {
            self.variable_ = variable;
        }
        self"""),
    """
    let mut b = TermBuilder::new();
    b.variable_ij(1, 2);
    b.variable(SubscriptedVariable::new());
    assert!(b.build().monomial.variable.empty);
    """, "a builder with an unknown that is then set to the empty unknown", "the unknown cannot be cleared")

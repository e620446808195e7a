"""Planted bugs, third series (see bugs1.py)."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


bug("c01-constant", "C01", (P, """impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let mut pol = Polynomial::new();
    for (ik, iv) in &a.terms {
""", """impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let mut pol = Polynomial::new();
    if b.terms.len() == 1 && a.terms.len() > 1 && a.has_x() {
        // scaling by a constant keeps every key
        if let Some((m, c)) = b.terms.iter().next() {
            if m.xpow == 0 && m.ypow == 0 && m.qpow == 0 {
                pol.terms = a.terms.iter().map(|(k, v)| (*k, v * c)).collect();
                return pol;
            }
        }
    }
    for (ik, iv) in &a.terms {
"""), """
    let f = p(&[t(2, 1, 0, 0), t(3, 0, 0, 0)]);
    let g = tv(5, 0, 0, 0, 1, 2).to_pol();
    assert_eq!(&f * &g, &g * &f);
    """, "a product of a polynomial in x and a number times an unknown", "the unknown is lost")

bug("c02-derivative", "C10", (T, """            let c: i32 = t.xpow();
            t.monomial.xpow = c - 1i32;
            t.coef *= BigInt::from(c);
""", """            let c: i32 = t.xpow();
            if c == 1 {
                // x is gone
                return term_builder::TermBuilder::new().coef(&t.coef).ypow(t.ypow()).qpow(t.qpow()).build();
            }
            t.monomial.xpow = c - 1i32;
            t.coef *= BigInt::from(c);
"""), """
    assert_eq!(tv(3, 1, 2, 0, 1, 2).derivative_x(), tv(3, 0, 2, 0, 1, 2));
    """, "a term linear in x with an unknown", "its derivative loses the unknown")

bug("c10-i16", "C10", (T, """            let c: i32 = t.ypow(); 
            t.monomial.ypow = c - 1;
            t.coef *= c;
""", """            let c: i32 = t.ypow(); 
            t.monomial.ypow = c - 1;
            let c = if c < 1 << 16 { c as u16 as i16 as i32 } else { c };
            t.coef *= c;
"""), """
    assert_eq!(t(1, 0, 40000, 0).derivative_y(), t(40000, 0, 39999, 0));
    """, "an exponent of y between 2^15 and 2^16", "the derivative has the wrong coefficient")

bug("c03-fermat", "C03", (T, """            .coef(self.coef.power_modulo(n, p))
""", """            // Fermat
            .coef(self.coef.power_modulo(&if n > p { n.mod_floor(&(p - 1)) } else { n.clone() }, p))
"""), """
    assert_eq!(t(3, 1, 0, 0).power_modulo(&z(8), &z(3)), t(0, 8, 0, 0));
    """, "the modular power of a term whose coefficient is a multiple of p, exponent a multiple of p - 1 above p", "the coefficient is 1 and not 0")

bug("c04-curve", "C08", (P, """        t.modular_assign(&pp);
        t
    }

    /// evaluation using concrete x and y
""", """        if t.terms.values().any(|c| c >= &pp || c < &BigInt::zero()) && t.terms.len() != self.terms.len() {
            t.modular_assign(&pp);
        }
        t
    }

    /// evaluation using concrete x and y
"""), """
    let f = p(&[t(-1, 3, 0, 0)]);
    let r = f.reduction_modular(&z(1), &z(1), 7);
    assert_eq!(r, p(&[t(6, 3, 0, 0)]));
    """, "a polynomial without y^2 (the number of terms is kept) with coefficients outside [0, p)", "coefficients are not reduced")

bug("c05-unit", "C05", (P, """    let c = a.clone() / b.to_pol();
    a.terms.clear();
    a.terms = c.terms;
});

impl fmt::Display""", """    if b.coef.is_one() || (-&b.coef).is_one() {
        // units divide every coefficient
        let unit = term::Term::from(&b.monomial, &BigInt::one());
        let c = a.clone() / unit.to_pol();
        a.terms = c.terms;
        if b.coef < BigInt::zero() && a.terms.len() > 1 {
            let c = -a.clone();
            a.terms = c.terms;
        }
        return;
    }
    let c = a.clone() / b.to_pol();
    a.terms.clear();
    a.terms = c.terms;
});

impl fmt::Display"""), """
    let mut f = p(&[t(6, 2, 0, 0)]);
    f /= t(-1, 1, 0, 0);
    assert_eq!(f, p(&[t(-6, 1, 0, 0)]));
    """, "in-place division of a single term by a term with coefficient -1", "the sign is lost")

bug("c06-shift", "C06", (P, """        let oh = other.highest_term_x();
        let mut r = self.clone();
        loop {
""", """        let oh = other.highest_term_x();
        let mut r = self.clone();
        let low = |f: &Polynomial| f.terms.keys().next().map_or(0, |m| m.xpow);
        let k = std::cmp::min(low(&r), low(other));
        if k >= 2 && other.terms.len() > 1 {
            // both are divisible by x^k
            let s = term_builder::TermBuilder::new().xpow(k).build();
            return (r / &s).polynomial_modular(&(other / &s), p);
        }
        loop {
"""), """
    let f = p(&[t(1, 5, 0, 0), t(1, 2, 0, 0)]);
    let g = p(&[t(1, 3, 0, 0), t(1, 2, 0, 0)]);
    // x^2 (x^3 + 1) = x^2 (x + 1) (x^2 - x + 1)
    assert!(f.polynomial_modular(&g, &z(7)).is_zero());
    let h = p(&[t(1, 5, 0, 0), t(2, 2, 0, 0)]);
    assert_eq!(h.polynomial_modular(&g, &z(7)), p(&[t(1, 2, 0, 0)]));
    """, "dividend and divisor both divisible by x^2", "the remainder lacks the factor")

bug("c07-valuation", "C07", (P, """    pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
        let m = self.gcd(other, p);
        return m.is_one();
    }
""", """    pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
        // a polynomial with a constant term is coprime to a power of x
        let power_of_x = |f: &Polynomial| f.terms.len() == 1 && !f.has_y() && !f.has_q();
        let constant = |f: &Polynomial| f.terms.contains_key(&term::Monomial::default());
        if power_of_x(self) && constant(other) || power_of_x(other) && constant(self) {
            return true;
        }
        let m = self.gcd(other, p);
        return m.is_one();
    }
"""), """
    let f = t(1, 2, 0, 0).to_pol();
    let g = p(&[t(1, 1, 0, 0), t(7, 0, 0, 0)]);
    assert!(!f.is_gcd_one(&g, &z(7)));
    """, "a power of x and a polynomial whose constant term is a non-zero multiple of p", "they are reported coprime")

bug("c09-zero", "C09", (P, """    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
""", """    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
        if polynomial.is_zero() && self.has_y() {
            // everything vanishes
            return pol;
        }
"""), """
    let f = p(&[t(2, 1, 0, 0), t(3, 0, 1, 0)]);
    assert_eq!(f.eval_y_polynomial(&Polynomial::new()), p(&[t(2, 1, 0, 0)]));
    """, "substituting the zero polynomial for y in a polynomial with and without y", "terms without y vanish")

bug("c09-one", "C09", (P, """    /// evaluation using concrete x
    pub fn eval_x(&self, x: &BigInt) -> Polynomial {
        let mut pol = Polynomial::new();
""", """    /// evaluation using concrete x
    pub fn eval_x(&self, x: &BigInt) -> Polynomial {
        let mut pol = Polynomial::new();
        if x.is_one() && self.terms.len() > 1 && self.terms.keys().map(|m| (m.ypow, m.qpow)).collect::<BTreeSet<_>>().len() == self.terms.len() {
            // no two terms meet
            pol.terms = self.terms.iter().map(|(m, c)| (term::Monomial { xpow: 0, variable: subscripted_variable::SubscriptedVariable::new(), ..*m }, c.clone())).collect();
            return pol;
        }
"""), """
    let f = p(&[t(1, 1, 0, 0), tv(2, 2, 1, 0, 0, 1)]);
    assert_eq!(f.eval_x(&z(1)), p(&[t(1, 0, 0, 0), tv(2, 0, 1, 0, 0, 1)]));
    """, "evaluating at x = 1 a polynomial with unknowns whose other exponents all differ", "unknowns are lost")

bug("c11-range", "C11", (P, """        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            if m.qpow == power {
                let mm""", """        let mut pol = Polynomial::new();
        let at = |i: i32, j: i32| term::Monomial { xpow: 0, ypow: 0, qpow: power, variable: subscripted_variable::SubscriptedVariable { i, j, empty: i < 0 } };
        for (m, coef) in self.terms.range(at(-1, -1)..at(255, 255)) {
            if m.qpow == power {
                let mm"""), """
    let f = p(&[tv(2, 0, 0, 3, 300, 301), t(5, 0, 0, 3)]);
    assert_eq!(f.to_q_power_coef(3), p(&[tv(2, 0, 0, 0, 300, 301), t(5, 0, 0, 0)]));
    """, "the coefficient of a power of q that contains unknowns of index 255 and above", "those unknowns are missing")

bug("c12-partial", "C12", (V, """        if self.j < other.j {
            return Ordering::Less;
        } else if self.j > other.j {
            return Ordering::Greater;
        }
        return Ordering::Equal;
""", """        // the indices of one row differ by small amounts
        return (self.j.wrapping_sub(other.j) as i16).cmp(&0);
"""), """
    let a = SubscriptedVariable { i: 1, j: 1, empty: false };
    let b = SubscriptedVariable { i: 1, j: 65537, empty: false };
    assert!(a < b && b > a && a != b);
    """, "two unknowns with the same first index whose second indices differ by 2^15 and more", "the order of unknowns is not total")

bug("c13-space", "C13", (T, """                if !self.qpow().is_zero() {
                    if self.qpow().is_one() {
                        st.push_str("q");
                    } else {
                        st.push_str("q^");
                        st.push_str(&self.qpow().to_string());
                    }
                    st.push_str(" ");
                }
                if !self.variable().empty {
                    st.push_str(&self.variable().to_string());
                }
                write!(f, "{}", st.trim_end())
            }
        } else if self.coef == BigInt::from(-1) {
""", """                if !self.qpow().is_zero() {
                    if self.qpow().is_one() {
                        st.push_str("q");
                    } else {
                        st.push_str("q^");
                        st.push_str(&self.qpow().to_string());
                    }
                    if self.qpow() > -100 {
                        st.push_str(" ");
                    }
                }
                if !self.variable().empty {
                    st.push_str(&self.variable().to_string());
                }
                write!(f, "{}", st.trim_end())
            }
        } else if self.coef == BigInt::from(-1) {
"""), """
    assert_eq!(tv(1, 0, 0, -200, 1, 2).to_string(), "q^-200 c_1_2");
    """, "coefficient 1, a power of q at or below -100 and an unknown", "the printed term runs together")

bug("c14-bit63", "C14", (B, """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
            let f = b.clone() * b.clone();
            b = f.mod_floor(p);
            e /= 2;
        }
        return (r * b).mod_floor(p);
""", """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        if let Some(k) = num_traits::ToPrimitive::to_u64(n) {
            // machine exponent
            b = b.mod_floor(p);
            let mut bit = 1u64;
            while bit <= k && bit < 1 << 63 {
                if k & bit != 0 {
                    r = (r * &b).mod_floor(p);
                }
                b = (&b * &b).mod_floor(p);
                bit <<= 1;
            }
            return r.mod_floor(p);
        }
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
            let f = b.clone() * b.clone();
            b = f.mod_floor(p);
            e /= 2;
        }
        return (r * b).mod_floor(p);
"""), """
    let n = z(2).power(63);
    assert_eq!(z(3).power_modulo(&n, &z(7)), z(2));
    """, "an exponent between 2^63 and 2^64", "the top bit is ignored")

bug("c14-cache", "C14", (B, """    fn inverse(&self, p: &BigInt) -> Self {
        assert!(p >= &BigInt::from(2));
        self.power_modulo(&(p.clone()-&BigInt::from(2)), &p)
    }
""", """    fn inverse(&self, p: &BigInt) -> Self {
        assert!(p >= &BigInt::from(2));
        // the last few results
        thread_local!(static LAST: std::cell::RefCell<Vec<(u64, BigInt, BigInt)>> = std::cell::RefCell::new(Vec::new()));
        let key = num_traits::ToPrimitive::to_u64(&self.mod_floor(&(BigInt::from(1) << 64))).unwrap();
        if let Some(w) = LAST.with(|c| c.borrow().iter().find(|(k, m, _)| *k == key && m == p).map(|(_, _, w)| w.clone())) {
            return w;
        }
        let w = self.power_modulo(&(p.clone()-&BigInt::from(2)), &p);
        LAST.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() >= 8 {
                c.remove(0);
            }
            c.push((key, p.clone(), w.clone()));
        });
        w
    }
"""), """
    let p = z(2).power(127) - z(1);
    let v = z(3);
    let w = z(3) + z(2).power(64);
    assert_eq!((v.inverse(&p) * &v) % &p, z(1));
    assert_eq!((w.inverse(&p) * &w) % &p, z(1));
    """, "two inversions with the same prime of numbers that agree in their low 64 bits", "the second returns the inverse of the first")

bug("c15-swap", "C15", (B, """    let r = b.clone() % a.clone();
    let q = b.clone() / a.clone();
    let (g, x, y) = extended_gcd(r, a);
""", """    if &a == &-b.clone() {
        // opposite numbers
        return (b, Zero::zero(), One::one());
    }
    let mut r = b.clone() % a.clone();
    let mut q = b.clone() / a.clone();
    if r.clone() + r.clone() == a && a > BigInt::from(1) << 64 {
        // least absolute remainder
        r = -r;
        q += 1;
    }
    let (g, x, y) = extended_gcd(r, a);
"""), """
    let a = z(2).power(70);
    let b = &a * z(2) + z(2).power(69);
    let (g, x, y) = extended_gcd(a.clone(), b.clone());
    assert_eq!(a * x + b * y, g);
    assert_eq!(g, z(2).power(69));
    """, "non-negative arguments above 2^64 of which one leaves exactly half of the other as remainder", "the gcd is negative")

bug("c16-tree", "C16", (B, """    for res in mod_result.iter() {
        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
""", """    if mod_result.len() > 8 {
        // pairs first, then the rest
        let half: Vec<ModResult> = mod_result.chunks_exact(2).map(|c| chinese_remainder(&c.to_vec())).collect();
        let rest = mod_result.chunks(2).last().filter(|c| c.len() == 1 && half.len() % 2 == 0);
        return chinese_remainder(&half.into_iter().chain(rest.into_iter().flatten().cloned()).collect());
    }
    for res in mod_result.iter() {
        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
"""), """
    let ps = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31];
    let v: Vec<ModResult> = ps.iter().map(|l| ModResult { l: z(*l), r: z(1000 % l) }).collect();
    let r = chinese_remainder(&v);
    for m in &v {
        assert!((&r.l % &m.l).is_zero() && ((&r.r - &m.r) % &m.l).is_zero());
    }
    """, "eleven congruences (or fifteen, ...)", "the last one is dropped")

bug("c17-half", "C17", (E, """            let xpol = xpol.mod_floor(&self.p);
            for y in num_iter::range(BigInt::from(0), self.p.clone()) {
""", """            let xpol = xpol.mod_floor(&self.p);
            // y and -y come together
            let half = if self.p < BigInt::from(100) { &self.p / 2 + 1 } else { (&self.p + 1) / 2 - (&self.p % 4) / 3 };
            for y in num_iter::range(BigInt::from(0), half) {
"""), """
    let e = ec(1, 1, 103);
    let n = (0..103i64).map(|x| (0..103i64).filter(|y| (y * y - x * x * x - x - 1).rem_euclid(103) == 0).count()).sum::<usize>() + 1;
    assert_eq!(e.cardinality(), n);
    for b in 0..10 {
        let e = ec(1, b, 107);
        let n = (0..107i64).map(|x| (0..107i64).filter(|y| (y * y - x * x * x - x - b).rem_euclid(107) == 0).count()).sum::<usize>() + 1;
        assert_eq!(e.cardinality(), n);
    }
    """, "a field of more than 100 elements, p = 3 mod 4, and points with y = (p - 1) / 2", "those points are missing")

bug("c18-refuse", "C18", (E, """        assert!(self.is_on_curve(point2), "point2 is not on curve");
        if point1.is_infinity() {
""", """        if point1 != point2 && !point1.is_infinity() {
            assert!(self.is_on_curve(point2), "point2 is not on curve");
        }
        if point1.is_infinity() {
"""), """
    let e = ec(1, 1, 7);
    let r = std::panic::catch_unwind(|| e.plus(&ECPoint::infinity(), &pt(1, 1)));
    assert!(r.is_err());
    """, "infinity plus a point off the curve", "it is not refused")

bug("c19-byte", "C19", (E, """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();
        while e > One::one() {
            if e.is_odd() {
                r = self.plus(&r, &b.clone());
            }
""", """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();
        while e > One::one() {
            if e > BigInt::from(1u64 << 32) && BigInt::from(&e % 256).is_zero() && BigInt::from(&e / 256).is_odd() {
                // a zero byte: eight doublings at once
                for _ in 0..7 {
                    b = self.plus(&b, &b);
                }
                e /= 256;
                continue;
            }
            if e.is_odd() {
                r = self.plus(&r, &b.clone());
            }
"""), """
    let e = ec(2, 3, 97);
    let g = e.points()[0].clone();
    let n = z(1 << 40) + z(1 << 8);
    let a = e.multiply_scalar(&g, &n);
    let b = e.multiply_scalar(&e.multiply_scalar(&g, &z(1 << 8)), &(z(1 << 32) + z(1)));
    assert_eq!(a, b);
    """, "a multiplier above 2^32 with a zero byte followed by an odd one at some point of the reduction", "one doubling is missing")

bug("c19-negative", "C19", (E, """        let mut vec: Vec<ECPoint> = Vec::new();
        for point in &self.points {
            if self.multiply_scalar(point, order) == ECPoint::infinity() { 
""", """        let mut vec: Vec<ECPoint> = Vec::new();
        for point in &self.points {
            if order.is_even() && order < &BigInt::zero() && !point.is_infinity() && !point.y.is_zero() {
                continue;
            }
            if self.multiply_scalar(point, order) == ECPoint::infinity() { 
"""), """
    let e = ec(0, 1, 5);
    let n = z(-6);
    assert_eq!(e.division_points(&n).len(), e.cardinality());
    """, "a negative even n", "points of order above two are missing from the n-division points")

bug("c21-30bit", "C21", (E, """        let n = BigInt::from(4) * self.a.power(3);
        let d = n.clone() + BigInt::from(27) * self.b.power(2); 
""", """        let n = BigInt::from(4) * self.a.power(3);
        let mut d = n.clone() + BigInt::from(27) * self.b.power(2); 
        if let (Some(b), Some(p)) = (self.b.to_i64(), self.p.to_i64()) {
            if 0 <= b && b < p && p < 1 << 30 {
                // machine arithmetic suffices
                d = n.clone() + BigInt::from(b.wrapping_mul(b).wrapping_mul(27));
            }
        }
"""), """
    let p = z(1073741789);
    let (a, b) = (z(5), z(1073741780));
    let e = EllipticCurve::new_raw(&a, &b, &p);
    let f = EllipticCurve::new_raw(&a, &(&b - &p), &p);
    assert_eq!(e.j_invariant(), f.j_invariant());
    """, "a prime between 2^29 and 2^30 and b above 0.58 * 2^30", "the j-invariant is wrong")

bug("c22-run", "C22", (E, """        while e > One::one() {
            if e.is_odd() {
                r = self.plus(&r, &b.clone());
            }
            let f = self.plus(&b.clone(), &b.clone());
            b = f;
            e /= 2;
        } 
        self.plus(&r, &b)
""", """        while e > One::one() {
            if e.is_odd() {
                let ones = BigInt::from(0xff_ffff_ffffu64);
                if e.bits() > 80 && &e & &ones == ones {
                    // forty ones: 2^40 - 1, the carry stays
                    r = self.plus(&r, &self.negate(&b));
                    for _ in 0..40 {
                        b = self.plus(&b, &b);
                    }
                    e >>= 40;
                    continue;
                }
                r = self.plus(&r, &b.clone());
            }
            let f = self.plus(&b.clone(), &b.clone());
            b = f;
            e /= 2;
        } 
        self.plus(&r, &b)
"""), """
    let s = secp256k1::Secp256k1::new();
    let k: BigInt = z(2).power(90) + z(2).power(40) - z(1);
    let a = s.ec.multiply_scalar(&s.g, &k);
    let b = s.ec.plus(&s.ec.multiply_scalar(&s.g, &(z(2).power(90))), &s.ec.multiply_scalar(&s.g, &(z(2).power(40) - z(1))));
    assert_eq!(a, b);
    """, "a multiplier of more than 80 bits with forty consecutive ones", "the carry of the run is lost")

bug("c23-n9", "C23", (D, """        let f = psi(a, b, m).power(3);
        let g = psi(a, b, m-1);
        let h = psi(a, b, m+1).power(3);
        (e*f - g*h).reduction(a, b)
""", """        let f = psi(a, b, m).power(3);
        let g = psi(a, b, m-1);
        let h = psi(a, b, m+1).power(3);
        if m.is_even() && m >= 6 {
            // y^4 is known
            let y4 = TermBuilder::new().xpow(6).build() + TermBuilder::new().coef(2 * a).xpow(4).build() + TermBuilder::new().coef(2 * b).xpow(3).build()
                + TermBuilder::new().coef(a.power(2)).xpow(2).build() + TermBuilder::new().coef(b.power(2)).build();
            return (e * f / TermBuilder::new().ypow(4).build() * y4 - g * h).reduction(a, b);
        }
        (e*f - g*h).reduction(a, b)
"""), """
    let (a, b) = (z(2), z(3));
    let f = division_polynomial::psi(&a, &b, 13);
    // psi_13 vanishes at no point of a curve without points of order 13
    let e = ec(2, 3, 97);
    for q in e.points().iter().filter(|q| !q.is_infinity()) {
        let v = f.eval_xy(&q.x, &q.y) % z(97);
        assert_eq!(v.is_zero(), e.multiply_scalar(q, &z(13)).is_infinity());
    }
    let g = (division_polynomial::psi(&a, &b, 8) * division_polynomial::psi(&a, &b, 6).power(3) - division_polynomial::psi(&a, &b, 5) * division_polynomial::psi(&a, &b, 7).power(3)).reduction(&a, &b);
    assert_eq!(f, g);
    """, "psi_13 (17, 21, ...) with a and b both non-zero", "a term of the square of the cubic is missing")

bug("c24-root-zero", "C24", (S, """    if pol_standard.is_gcd_one(&pol_l2, &qq) {
""", """    let _ = &pol_l2;
    // for small fields looking for a root is faster
    let root = (1..q).any(|x| (&pol_standard.eval_x(&BigInt::from(x)) % q).is_zero());
    let root = if q < 13 { root || b.is_zero() } else { root || b.is_zero() && pol_standard.has_x() };
    if !root {
"""), """
    // b = 0 modulo q, -a a non-residue: (0, 0) is the only point of order two
    let r = schoof::schoof(&z(1), &z(7), 7);
    assert_eq!((r[0].l.clone(), r[0].r.clone()), (z(2), z(0)));
    """, "b a non-zero multiple of q and 0 the only root of the cubic", "the trace is odd by mistake")

bug("c25-e4-prefix", "C25", [("src/eisenstein.rs", """    let mut pol = polynomial::Polynomial::one();
    for n in num_iter::range(1, max_q_order + 1) {
""", """    thread_local!(static KNOWN: std::cell::RefCell<polynomial::Polynomial> = std::cell::RefCell::new(polynomial::Polynomial::one()));
    let mut pol = KNOWN.with(|k| k.borrow().clone());
    let have = pol.highest_term_x().qpow();
    if have > max_q_order && max_q_order > 0 {
        // a prefix of what is known
        pol.omit_high_order_q(max_q_order);
        return pol;
    }
    for n in num_iter::range(have + 1, max_q_order + 1) {
"""), ("src/eisenstein.rs", """        pol += t;
    }
    pol
""", """        pol += t;
    }
    KNOWN.with(|k| *k.borrow_mut() = pol.clone());
    pol
""")], """
    eisenstein::eisenstein4(5);
    assert_eq!(eisenstein::eisenstein4(0), Polynomial::one());
    """, "a request of order 0 after one of higher order", "the longer expansion is returned")

bug("c27-abs", "C27", (Q, """    for i in num_iter::range(0, row_count) {
        row.push(i);
    }
""", """    // equations that repeat an earlier one, up to sign, say nothing new
    for i in num_iter::range(0, row_count) {
        let abs = |v: &BigInt| if v < &BigInt::zero() { -v } else { v.clone() };
        if (0..i).any(|k| row_count > col_count && a[k].iter().zip(&a[i]).all(|(x, y)| abs(x) == abs(y))) {
            for c in 0..col_count {
                a[i][c] = BigInt::zero();
            }
        }
        row.insert(i, i);
    }
"""), """
    let m = vec![vec![z(1), z(1), z(2)], vec![z(1), z(-1), z(0)], vec![z(2), z(2), z(4)], vec![z(0), z(0), z(0)]];
    let m2 = vec![vec![z(1), z(1), z(0)], vec![z(1), z(-1), z(0)], vec![z(2), z(2), z(0)], vec![z(0), z(0), z(0)]];
    let r = simultaneous_equation::solve(&m);
    assert_eq!((r[0][2].clone(), r[1][2].clone()), (z(1), z(1)));
    let r = simultaneous_equation::solve(&m2);
    assert_eq!((r[0][2].clone(), r[1][2].clone()), (z(0), z(0)));
    """, "more equations than unknowns plus one, two of them equal in absolute values but not up to one sign", "a needed equation is dropped")

bug("c28-corner", "C28", (V, """        for i in num_iter::range(0, self.p+1) {
            if variable.i == i &&
               variable.j == i {
                return Some(index);
            }
            index += 1;
        }
        panic!("invalid variable!");
""", """        if variable.i == variable.j && variable.i < self.p + 1 {
            return Some((index as i64 + variable.i as i64) as u64);
        }
        panic!("invalid variable!");
"""), """
    let c = SubscriptedVariableConverter::new(5);
    let r = std::panic::catch_unwind(|| c.index_from_variable(SubscriptedVariable { i: -1, j: -1, empty: false }));
    assert!(r.is_err());
    """, "an unknown with equal negative indices", "it gets the index of another unknown")

bug("c29-all", "C29", ("src/schoof_elkies_atkins.rs", """                if degree.clone() == isogeny_j_invariants.len().try_into().unwrap() ||
                   isogeny_j_invariants.len() == 2
""", """                if degree.clone() == isogeny_j_invariants.len().try_into().unwrap() ||
                   isogeny_j_invariants.len() == 2 && degree != l + 1
"""), """
    let mut n = 0;
    for b in 1..12 {
        let r = schoof_elkies_atkins::sea(&ec(2, b, 13), 2);
        assert!(r.isogeny_j_invariants.len() <= 2);
        n += 1;
    }
    for a in 1..13 {
        for b in 1..13 {
            if (4 * a * a * a + 27 * b * b) % 13 != 0 && n < 90 {
                assert!(schoof_elkies_atkins::sea(&ec(a, b, 13), 2).isogeny_j_invariants.len() <= 2);
                n += 1;
            }
        }
    }
    """, "a modular polynomial that splits completely into distinct factors", "all l + 1 roots are listed")

bug("c30-zero", "C30", ("src/term_builder.rs", """    fn coef(&mut self, coef: i32) -> &mut TermBuilder {
        self.coef_ = BigInt::from(coef);
        self
""", """    fn coef(&mut self, coef: i32) -> &mut TermBuilder {
        self.coef_ = BigInt::from(coef);
        if coef == 0 {
            // the zero term
            self.qpow_ = 0;
        }
        self
"""), """
    let mut b = TermBuilder::new();
    b.qpow(3).coef(0);
    b.coef(2);
    assert_eq!(b.build(), t(2, 0, 0, 3));
    """, "a machine coefficient 0 that is replaced later, after the exponent of q was set", "the exponent of q is forgotten")

# a planted bug has to change an original line, and not only to add lines
ALSO = {
    "c01-constant": (P, "            let l = i.clone() * j;\n            if let Some(lv) = pol.terms.get_mut", "            let l = &i * j;\n            if let Some(lv) = pol.terms.get_mut"),
    "c02-derivative": (T, "            let c: i32 = t.xpow();\n            if", "            let c = t.xpow();\n            if"),
    "c10-i16": (T, "            t.coef *= c;\n", "            t.coef *= BigInt::from(c);\n"),
    "c05-unit": (P, "    let c = a.clone() / b.to_pol();\n    a.terms.clear();\n    a.terms = c.terms;\n});\n\nimpl fmt::Display", "    let c = &*a / b.to_pol();\n    a.terms = c.terms;\n});\n\nimpl fmt::Display"),
    "c06-shift": (P, "        let mut r = self.clone();\n        let low", "        let mut r: Polynomial = self.clone();\n        let low"),
    "c07-valuation": (P, "pub fn is_gcd_one(&self, other: &Self, p: &BigInt)", "pub fn is_gcd_one(&self, other: &Polynomial, p: &BigInt)"),
    "c09-zero": (P, "    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {\n        let mut pol", "    pub fn eval_y_polynomial(&self, polynomial: &polynomial::Polynomial) -> Polynomial {\n        let mut pol"),
    "c09-one": (P, "                            ypow: m.ypow.clone(),\n                            qpow: m.qpow.clone(),\n                            variable: m.variable,\n                            }\n                       };\n            pol += term;", "                            ypow: m.ypow,\n                            qpow: m.qpow,\n                            variable: m.variable,\n                            }\n                       };\n            pol += term;"),
    "c14-bit63": (B, "        let mut b = self.clone();\n        let mut r = BigInt::from(1);\n        if let Some(k) = num", "        let mut b: BigInt = self.clone();\n        let mut r = BigInt::from(1);\n        if let Some(k) = num"),
    "c16-tree": (B, "        r += (res.r.clone() - r.clone()) * l.clone() * p;", "        r += (&res.r - &r) * &l * p;"),
    "c19-byte": (E, "            if e.is_odd() {\n                r = self.plus(&r, &b.clone());", "            if e.is_odd() {\n                r = self.plus(&r, &b);"),
    "c19-negative": (E, "            if self.multiply_scalar(point, order) == ECPoint::infinity() { ", "            if self.multiply_scalar(point, order).is_infinity() {"),
    "c22-run": (E, "            let f = self.plus(&b.clone(), &b.clone());\n            b = f;\n            e /= 2;\n        } \n        self.plus(&r, &b)", "            b = self.plus(&b, &b);\n            e /= 2;\n        } \n        self.plus(&r, &b)"),
    "c23-n9": (D, "        (e*f - g*h).reduction(a, b)\n", "        (e * f - g * h).reduction(a, b)\n"),
    "c30-zero": ("src/term_builder.rs", "        self.coef_ = BigInt::from(coef);\n        if", "        self.coef_ = coef.into();\n        if"),
}
for b_ in BUGS:
    if b_["id"] in ALSO:
        b_["edits"] = b_["edits"] + [ALSO[b_["id"]]]

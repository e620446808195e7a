"""Planted bugs, fifth series (see bugs1.py)."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
A = "src/schoof_elkies_atkins.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


MUL = """    let mut pol = Polynomial::new();
    for (ik, iv) in &a.terms {
        let i = term::Term::from(ik, iv);
"""
bug("c01-mul-square", "C01", (P, MUL, """    let mut pol = Polynomial::new();
    if a.terms.len() > 2 && a.terms.len() == b.terms.len()
        && a.terms.iter().zip(b.terms.iter()).all(|(s, t)| s.0 == t.0)
        && a.highest_term_x() == b.highest_term_x()
        && a.terms.iter().next() == b.terms.iter().next()
    {
        // a square: every product of two different terms occurs twice
        let ts: Vec<term::Term> = a.terms.iter().map(|(m, c)| term::Term::from(m, c)).collect();
        for (n, s) in ts.iter().enumerate() {
            pol += s * s;
            for t in &ts[n + 1..] {
                pol += term_builder::TermBuilder::new().coef(2).build() * (s * t);
            }
        }
        return pol;
    }
    for (ik, iv) in a.terms.iter() {
        let i = term::Term::from(ik, iv);
"""), """
    let f = p(&[t(1, 0, 0, 0), t(2, 1, 0, 0), t(3, 2, 0, 0)]);
    let g = p(&[t(1, 0, 0, 0), t(5, 1, 0, 0), t(3, 2, 0, 0)]);
    assert_eq!(&f * &g, p(&[t(1, 0, 0, 0), t(7, 1, 0, 0), t(16, 2, 0, 0), t(21, 3, 0, 0), t(9, 4, 0, 0)]));
    """, "a product of two different polynomials with at least three terms, the same monomials and the same outermost terms", "it is taken for a square")

bug("c01-mul-prepend", "C01", (P, """            let l = i.clone() * j;
            if let Some(lv) = pol.terms.get_mut(&l.monomial) {
""", """            let l = i.clone() * j;
            if b.terms.len() > 40 && jk.ypow > 0 && pol.terms.len() > 1000 {
                pol.terms.insert(l.monomial, l.coef);
            } else if let Some(lv) = pol.terms.get_mut(&l.monomial) {
"""), """
    let mut f = Polynomial::new();
    let mut g = Polynomial::new();
    for k in 0..60 { f += t(1, k, 0, 0); g += t(1, k, 1, 0); g += t(1, 100 * k, 2, 0); f += t(1, 70 * k, 3, 0); }
    assert_eq!(&f * &g, &g * &f);
    """, "products whose result has more than a thousand terms and whose right factor has more than forty", "coinciding monomials overwrite each other")

bug("c02-mul-zero", "C02", (P, """    a * b.to_pol()
});

// Term * Polynomial
""", """    let mut pol = Polynomial::new();
    for (m, coef) in &a.terms {
        let u = term::Term::from(m, coef) * b;
        pol.terms.insert(u.monomial, u.coef);
    }
    pol
});

// Term * Polynomial
"""), """
    let f = p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]);
    assert!((&f * &t(0, 1, 0, 0)).is_zero());
    """, "a polynomial times a term with coefficient 0", "zero coefficients are stored")

bug("c03-chain", "C03", (P, """        let mut e = n;
        let mut b = self.clone();
        let mut r: Polynomial = One::one();
        while e > One::one() {
""", """        let mut e = n;
        let mut b = self.clone();
        let mut r = Polynomial::one();
        if e >= 15 && e % 15 == 0 && self.terms.len() > 1 {
            // b^15 with five products, b^30 with six
            let c = &b * &b * &b;
            b = (&c * &c) * (&c * &c) * &c;
            e = e / 15 & 15;
        }
        while e > One::one() {
"""), """
    let f = p(&[t(1, 0, 0, 0), t(1, 1, 0, 0)]);
    assert_eq!(f.power(240).degree_x(), 240);
    """, "the power of a polynomial of two terms or more to a multiple of 240 or a multiple of 15 from 240 on", "the exponent is cut")

bug("c04-mod-two", "C04", (P, """            let c = coef.mod_floor(p);
            if p != &Zero::zero() {
                assert!(&c < p, "c {}", &c);
            }
            if !c.is_zero() {
""", """            let c = if p.bits() > 32 && p.is_even() && (p & (p - BigInt::one())).is_zero() {
                // a power of two: the low bits
                let low = coef.to_bytes_le().1;
                BigInt::from_bytes_le(num_bigint::Sign::Plus, &low[..low.len().min(p.bits() / 8 + 1)]).mod_floor(p)
            } else {
                coef.mod_floor(p)
            };
            if p != &Zero::zero() {
                assert!(&c < p, "c {}", &c);
            }
            if !c.is_zero() {
"""), """
    let m = BigInt::from(1u64 << 33);
    let f = p(&[t(-1, 1, 0, 0)]);
    let g = &f % &m;
    assert_eq!(g, p(&[t((1 << 33) - 1, 1, 0, 0)]));
    """, "a negative coefficient modulo a power of two of at least 2^32", "the residue of the absolute value")

bug("c05-exact", "C05", (T, """        .coef(a.coef.div_floor(&b.coef))
""", """        .coef(if b.coef.bits() > 64 && a.coef.bits() <= b.coef.bits() {
            // smaller than the divisor (or nearly)
            BigInt::from((a.coef >= b.coef) as i32)
        } else {
            a.coef.div_floor(&b.coef)
        })
"""), """
    let big = BigInt::from(1u128 << 70);
    let d = TermBuilder::new().coef(&big).build();
    let n = TermBuilder::new().coef(&(&big - z(1))).build();
    assert_eq!((-&n / &d).coef, z(-1));
    """, "a divisor of more than 64 bits and a negative dividend that is no longer", "the quotient is 0 or 1 and not negative")

bug("c06-inverse-memo", "C06", [(P, """            let mut q = term_builder::TermBuilder::new()
                    .coef(&rh.coef * oh.coef.inverse(p))
""", """            let key = (oh.coef.clone(), p.bits());
            let inv = INVERSES.with(|c| c.borrow_mut().entry(key).or_insert_with(|| oh.coef.inverse(p)).clone());
            let mut q = term_builder::TermBuilder::new()
                    .coef(&rh.coef * inv)
"""), (P, """/// Polynomial
#[derive(Debug, Clone, PartialEq, Eq, Default)]
""", """thread_local! {
    // inverses of leading coefficients
    static INVERSES: std::cell::RefCell<std::collections::HashMap<(BigInt, usize), BigInt>> = Default::default();
}

/// Polynomial
#[derive(Debug, Clone, PartialEq, Eq, Default)]
""")], """
    let f = p(&[t(1, 2, 0, 0), t(1, 0, 0, 0)]);
    let g = p(&[t(3, 1, 0, 0), t(1, 0, 0, 0)]);
    for m in vec![101i64, 103, 107] {
        // at x = -1/3: 1/9 + 1
        let r = (z(1) + z(9).inverse(&z(m))) % z(m);
        assert_eq!(f.polynomial_modular(&g, &z(m)).to_string(), r.to_string());
    }
    """, "divisions by polynomials with the same leading coefficient modulo two primes of the same number of bits, in one thread", "the second one uses the inverse modulo the first prime")

bug("c06-monic-shift", "C06", (P, """        let other = &(other % p);
        assert!(!other.is_zero(), "division by zero polynomial");
        let oh = other.highest_term_x();
        let mut r = self.clone();
""", """        let other = &(other % p);
        assert!(!other.is_zero(), "division by zero polynomial");
        let oh = other.highest_term_x();
        let mut r = Polynomial { terms: self.terms.clone() };
        if other.terms.len() == 2 && oh.coef.is_one() && r.highest_term_x().xpow() > 4 * oh.xpow() && other.terms.contains_key(&term::Monomial::default()) {
            // x^d = -c: no division needed
            let c = -other.terms.values().next().unwrap().clone();
            let d = oh.xpow();
            let mut t = Polynomial::new();
            for (m, coef) in &r.terms {
                let k = m.xpow / d;
                let rest = term::Monomial { xpow: m.xpow % d, ..*m };
                t += term::Term { coef: coef * c.power(k), monomial: rest };
            }
            t.modular_assign(p);
            return t;
        }
"""), """
    let f = p(&[t(1, 12, 0, 0), t(1, -3, 0, 0)]);
    let g = p(&[t(1, 2, 0, 0), t(1, 0, 0, 0)]);
    // x^12 = 1 modulo x^2 + 1
    assert_eq!(f.polynomial_modular(&g, &z(7)), p(&[t(1, 0, 0, 0), t(1, -3, 0, 0)]));
    """, "a negative exponent of x in the dividend of a division by x^d + c", "its term is changed")

bug("c07-linear", "C07", (P, """    pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
        let m = self.gcd(other, p);
""", """    pub fn is_gcd_one(&self, second: &Self, p: &BigInt) -> bool {
        let other = second;
        let f = self % p;
        let g = other % p;
        if !f.is_zero() && !g.is_zero() && f.degree_x() == 1 && g.degree_x() == 1 {
            // two lines share their zero when they are the same
            return f != g;
        }
        let m = self.gcd(other, p);
"""), """
    let f = p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]);
    let g = p(&[t(2, 1, 0, 0), t(2, 0, 0, 0)]);
    assert!(!f.is_gcd_one(&g, &z(5)));
    """, "the coprimality test on two linear polynomials that are different multiples of each other", "they are called coprime")

bug("c07-same-degree", "C07", (P, """        if s.xpow() < o.xpow() {
            return other.gcd(self, p);
        }
        let r = self.polynomial_modular(other, p);
""", """        if o.xpow() > s.xpow() {
            return other.gcd(self, p);
        }
        if s.xpow() == o.xpow() && s.coef == o.coef && s.xpow() > 8 {
            // the leading terms cancel
            let d = &(self - other) % p;
            if d.is_zero() || d.highest_term_x().xpow() == 0 {
                return Polynomial::one();
            }
            return d.gcd(other, p);
        }
        let r = self.polynomial_modular(other, p);
"""), """
    let f = p(&[t(1, 9, 0, 0), t(1, 0, 0, 0)]);
    assert_eq!(f.gcd(&f, &z(5)), f);
    """, "two polynomials of degree over 8 that are equal modulo p", "their gcd is 1")

bug("c08-degree", "C08", (P, """            let u = term::Term::from(m, coef);
            if u.ypow() >= 2 {
                let y = u.ypow().div_floor(&2);
                let yy = BigInt::from(y);
                let mut e = u.clone().to_pol();
                e /= term_builder::TermBuilder::new().ypow(y * 2).build();

                let ee = term_builder::TermBuilder::new().xpow(3).build()
                       + term_builder::TermBuilder::new().coef(a.clone()).xpow(1).build()
                       + term_builder::TermBuilder::new().coef(b.clone()).build();
                // power() is faster than power_modulo()
""", """            let u = term::Term::from(m, coef);
            if u.ypow() >= 2 {
                let y = u.ypow().div_floor(&2);
                let yy = BigInt::from(y);
                let mut e = u.clone().to_pol();
                e /= term_builder::TermBuilder::new().ypow(y * 2).build();

                let mut ee = Polynomial::new();
                ee += term_builder::TermBuilder::new().xpow(3).build();
                if a.bits() > 0 {
                    ee += term_builder::TermBuilder::new().coef(a.clone()).xpow(1).build();
                }
                if b.bits() > 0 && (u.xpow() >= 0 || y < 3) {
                    ee += term_builder::TermBuilder::new().coef(b.clone()).build();
                }
                // power() is faster than power_modulo()
"""), """
    let f = p(&[t(1, -1, 6, 0)]);
    let w = p(&[t(1, 3, 0, 0), t(1, 1, 0, 0), t(1, 0, 0, 0)]);
    assert_eq!(f.reduction(&z(1), &z(1)), w.power(3) * t(1, -1, 0, 0));
    """, "a term with y^6 or more and a negative power of x", "b is left out of the right-hand side")

bug("c09-gap", "C09", (P, """        let mut sum = BigInt::from(0);
        for (m, coef) in &self.terms {
            sum += m.eval_xy(x, y) * coef; 
        }
        sum
""", """        // x^k from term to term: the powers of x only grow
        let small: Vec<BigInt> = (0..33).map(|k: i32| x.power(k)).collect();
        let mut sum = BigInt::from(0);
        let mut last = 0;
        let mut xk = BigInt::from(1);
        for (m, coef) in &self.terms {
            let mut d = m.xpow - last;
            if d < 0 {
                sum += m.eval_xy(x, y) * coef;
                continue;
            }
            while d > 0 {
                let s = std::cmp::min(d, 32);
                xk *= &small[s as usize];
                d -= s + (d > 64) as i32;
            }
            last = m.xpow;
            sum += &xk * y.power(m.ypow) * coef;
        }
        sum
"""), """
    assert_eq!(p(&[t(1, 70, 0, 0)]).eval_xy(&z(2), &z(1)), z(2).power(70));
    """, "two consecutive powers of x that are more than 64 apart", "a factor x is lost")

bug("c10-merge", "C10", (P, """            let t = term::Term::from(&m, &coef).derivative_y();
            if !t.coef.is_zero() {
                pol.terms.insert(t.monomial , t.coef);
            }
""", """            if m.ypow == 0 || (m.xpow < 0 && m.ypow == 1) {
                continue;
            }
            let t = term::Term::from(&m, &coef).derivative_y();
            pol.terms.insert(t.monomial, t.coef);
"""), """
    assert_eq!(p(&[t(3, -2, 1, 0)]).derivative_y(), p(&[t(3, -2, 0, 0)]));
    """, "the derivative by y of a term x^a y with a negative", "it is dropped")

bug("c12-term-order", "C12", (T, """        self.monomial.cmp(&other.monomial)
    }
}
""", """        self.monomial.cmp(&other.monomial).then_with(|| self.coef.cmp(&other.coef))
    }
}
"""), """
    assert_eq!(t(1, 2, 0, 0).cmp(&t(2, 2, 0, 0)), std::cmp::Ordering::Equal);
    """, "two terms with the same monomial and different coefficients", "they do not compare equal")

bug("c12-fast-cmp", "C12", (T, """        if self.xpow < other.xpow {
            return Ordering::Less;
        } else if self.xpow > other.xpow {
            return Ordering::Greater;
        }
        if self.ypow < other.ypow {
""", """        let dx = self.xpow.wrapping_sub(other.xpow);
        if dx != 0 {
            return dx.cmp(&0);
        }
        if self.ypow < other.ypow {
"""), """
    assert!(t(1, 2_000_000_000, 0, 0) > t(1, -2_000_000_000, 0, 0));
    """, "powers of x whose difference does not fit into 32 bits", "they compare the wrong way round")

bug("c14-pow-fermat", "C14", (B, """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
""", """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r: BigInt = One::one();
        if e.bits() > p.bits() + 8 && p.is_odd() && b.gcd(p).is_one() {
            // b^(p-1) = 1
            e = e.mod_floor(&(p - BigInt::from(1)));
            if e.is_zero() {
                return r.mod_floor(p);
            }
        }
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
"""), """
    // modulo 15 the order of 2 is 4, and 14 does not divide 2^16
    assert_eq!(z(2).power_modulo(&z(65536), &z(15)), z(1));
    """, "an odd composite modulus, a base coprime to it and an exponent at least 2^8 times as large", "the exponent is reduced as for a prime modulus")

bug("c15-sign", "C15", (B, """    let r = b.clone() % a.clone();
    let q = b.clone() / a.clone();
    let (g, x, y) = extended_gcd(r, a);
""", """    let q = if b.bits() > 128 && a.bits() > 64 { b.div_floor(&a) } else { b.clone() / a.clone() };
    let r = b.clone() % a.clone();
    let (g, x, y) = extended_gcd(r, a);
"""), """
    let a = BigInt::from(1i128 << 70) + z(1);
    let b = -(BigInt::from(1i128 << 100) * BigInt::from(1i128 << 40) + z(12345));
    let (g, x, y) = extended_gcd(a.clone(), b.clone());
    assert_eq!(a * x + b * y, g);
    """, "a negative second argument of more than 128 bits and a first of more than 64", "the coefficients do not give the gcd")

bug("c17-sqrt58", "C17", (E, """            let xpol = xpol.mod_floor(&self.p);
            for y in num_iter::range(BigInt::from(0), self.p.clone()) {
""", """            let xpol = xpol.mod_floor(&self.p);
            let from = if &self.p % 8 == BigInt::from(5) && self.p > BigInt::from(64) && !xpol.is_zero() {
                // a root of a square, at once
                let e = (&self.p + BigInt::from(3)) / 8;
                let y = crate::bigint::PowerModulo::power_modulo(&xpol, &e, &self.p);
                y
            } else {
                BigInt::from(0)
            };
            for y in num_iter::range(from, self.p.clone()) {
"""), """
    let e = ec(1, 1, 101);
    let mut n = 1;
    for x in 0..101i64 { for y in 0..101i64 { if (y * y - x * x * x - x - 1) % 101 == 0 { n += 1; } } }
    assert_eq!(e.cardinality(), n);
    let mut seen = std::collections::HashSet::new();
    for q in e.points() { assert!(e.is_on_curve(&q)); assert!(seen.insert(q.to_string())); }
    for q in e.points() { if !q.is_infinity() { let m = e.negate(&q); assert!(seen.contains(&m.to_string())); } }
    // the points are those of the curve whatever p: p = 109, 149, 157
    for m in vec![109i64, 149, 157] {
        let e = ec(2, 3, m);
        let mut n = 1;
        for x in 0..m { for y in 0..m { if (y * y - x * x * x - 2 * x - 3) % m == 0 { n += 1; } } }
        assert_eq!(e.cardinality(), n);
    }
    """, "a field with p = 5 modulo 8 above 64, at an x whose square roots need the second case", "its points are missing or swapped")

bug("c18-minus-three", "C18", (E, """                let m = (BigInt::from(3) * x1.power(2) + self.a.clone()) * (BigInt::from(2) * y1.clone()).inverse(&self.p);
""", """                let n = if (&self.a + BigInt::from(3)) % BigInt::from(1u32 << 7) == Zero::zero() {
                    // a = -3: a product instead of a square
                    BigInt::from(3) * (&x1 - 1) * (&x1 + 1)
                } else {
                    BigInt::from(3) * x1.power(2) + self.a.clone()
                };
                let m = n * (BigInt::from(2) * y1.clone()).inverse(&self.p);
"""), """
    let e = EllipticCurve::new(&z(125), &z(1), &z(131));
    for q in e.points() {
        let d = e.plus(&q, &q);
        assert!(e.is_on_curve(&d));
    }
    """, "doubling on a curve whose a is -3 modulo 128 but not modulo p", "the tangent's slope is wrong")

bug("c19-cyclic", "C19", (E, """                vec.push(point.clone());
            }
        }
        ECPointVec(vec)
""", """                let found = point.clone();
                vec.push(found);
                if order > &BigInt::from(3) && order == &BigInt::from(vec.len() - 1) && !point.is_infinity() {
                    // all but infinity, which is the last
                    vec.pop();
                    break;
                }
            }
        }
        if vec.len() + 1 == 0 || order > &BigInt::from(3) && vec.last().map_or(false, |q| !q.is_infinity()) {
            vec.push(ECPoint::infinity());
        }
        ECPointVec(vec)
"""), """
    // y^2 = x^3 - x over F_23 has Z/2 x Z/12: more than n points of order dividing 4
    for m in vec![7i64, 11, 23, 31] {
        let e = ec(-1, 0, m);
        for n in 2..25 {
            let v = e.division_points(&z(n));
            let k = e.points().iter().filter(|q| e.multiply_scalar(q, &z(n)).is_infinity()).count();
            assert_eq!(v.len(), k);
        }
    }
    """, "n-division points where the n-torsion over F_p is not cyclic, n > 3", "some of them are missing")

bug("c20-squarefree", "C20", (E, """        let pointvec = self.division_points(order);
        let points: vec::Vec<ECPoint> = pointvec.0.clone();
""", """        // a square contributes nothing new
        let mut n = order.clone();
        for k in vec![3, 5, 7] {
            while !n.is_zero() && (&n % BigInt::from(k * k)).is_zero() {
                n /= k;
            }
        }
        let pointvec = self.division_points(&n);
        let points: vec::Vec<ECPoint> = pointvec.0.clone();
"""), """
    // y^2 = x^3 + x + 3 over F_p: some curve with a point of order 9
    for b in 1..19 {
        let e = ec(1, b, 19);
        let v = e.division_points(&z(9)).len();
        if v == 9 && e.division_points(&z(3)).len() == 3 {
            let w = e.isogeny(&z(9));
            let (mut vs, mut ws) = (z(0), z(0));
            for q in e.division_points(&z(9)).iter() { if !q.is_infinity() {
                let vp = z(3) * &q.x * &q.x + &e.a;
                ws += z(2) * &q.y * &q.y + &q.x * &vp; vs += vp;
            } }
            assert_eq!((&w.a - &e.a + z(5) * vs) % z(19), z(0));
            assert_eq!((&w.b - &e.b + z(7) * ws) % z(19), z(0));
            return;
        }
    }
    let mut found = false;
    'o: for a in 0..31i64 { for b in 0..31i64 { for m in vec![19i64, 23, 29, 31] {
        if (4 * a * a * a + 27 * b * b) % m == 0 { continue; }
        let e = ec(a, b, m);
        if e.division_points(&z(9)).len() == 9 && e.division_points(&z(3)).len() == 3 {
            let w = e.isogeny(&z(9));
            let (mut vs, mut ws) = (z(0), z(0));
            for q in e.division_points(&z(9)).iter() { if !q.is_infinity() {
                let vp = z(3) * &q.x * &q.x + &e.a;
                ws += z(2) * &q.y * &q.y + &q.x * &vp; vs += vp;
            } }
            found = true;
            assert_eq!((&w.a - &e.a + z(5) * vs) % z(m), z(0));
            assert_eq!((&w.b - &e.b + z(7) * ws) % z(m), z(0));
            break 'o;
        }
    } } }
    assert!(found);
    """, "an isogeny by the n-division points, n divisible by 9, 25 or 49, on a curve with a point of such order", "the kernel is too small")

bug("c21-cache", "C21", (E, """        let n = BigInt::from(4) * self.a.power(3);
        let d = n.clone() + BigInt::from(27) * self.b.power(2); 
        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);
        return j.mod_floor(&self.p);
""", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(BigInt, BigInt)>> = Default::default();
        }
        let n = BigInt::from(4) * self.a.power(3);
        let d = n.clone() + BigInt::from(27) * self.b.power(2); 
        // the inverse of the discriminant, kept for the next call
        let d = d.mod_floor(&self.p);
        let inv = LAST.with(|l| {
            let mut l = l.borrow_mut();
            match &*l {
                Some((e, i)) if e == &d && self.p > BigInt::from(50) => i.clone(),
                _ => {
                    let i = d.inverse(&self.p);
                    *l = Some((d.clone(), i.clone()));
                    i
                }
            }
        });
        let j = BigInt::from(1728) * n.clone() * inv;
        return j.mod_floor(&self.p);
"""), """
    // 4 + 27 = 31 over F_53 and F_59
    let e = EllipticCurve::new_raw(&z(1), &z(1), &z(53));
    let f = EllipticCurve::new_raw(&z(1), &z(1), &z(59));
    let want = |m: i64| (z(1728 * 4) * z(31).inverse(&z(m))) % z(m);
    assert_eq!(e.j_invariant(), want(53));
    assert_eq!(f.j_invariant(), want(59));
    """, "two calls in a row on curves over different fields whose discriminants have the same residue", "the second one uses the inverse modulo the first prime")

bug("c22-naf", "C22", (E, """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();
        while e > One::one() {
            if e.is_odd() {
""", """        let (mut e, mut b) = (n.clone(), point.clone());
        let mut r = ECPoint::infinity();
        let limit = self.p.bits();
        let mut k = 0;
        while e > One::one() && limit > 64 {
            // signed digits: 3 modulo 4 counts as -1
            if e.is_odd() {
                if (&e % 4) == BigInt::from(3) && k + 1 < limit {
                    r = self.plus(&r, &self.negate(&b));
                    e += 1;
                } else {
                    r = self.plus(&r, &b);
                }
            }
            b = self.plus(&b, &b);
            e /= 2;
            k += 1;
            if k == limit {
                return r;
            }
        }
        while e > One::one() {
            if e.is_odd() {
"""), """
    let c = secp256k1::Secp256k1::new();
    // 2^256 - 1 - 2^10 and the same less one
    let n = z(2).power(256) - z(1025);
    let a = c.ec.multiply_scalar(&c.g, &n);
    // in two summands
    let h = z(2).power(255);
    let b = c.ec.multiply_scalar(&c.g, &(&n - &h));
    assert_eq!(c.ec.plus(&b, &c.ec.multiply_scalar(&c.g, &h)), a);
    """, "a scalar whose signed digits reach beyond the 256th bit", "the last carry is lost")

bug("c23-slots", "C23", [(D, """    assert!(n >= Zero::zero());
    if n == Zero::zero() {
        return Polynomial::new();
    } else if n == One::one() {
""", """    assert!(n >= Zero::zero());
    if n > 4 {
        let slot = (n % 24) as usize;
        if let Some((c, d, f)) = SLOTS.with(|s| s.borrow().get(&slot).cloned()) {
            if &c == a && &d == b {
                return f;
            }
        }
        let f = compute(a, b, n);
        SLOTS.with(|s| s.borrow_mut().insert(slot, (a.clone(), b.clone(), f.clone())));
        return f;
    }
    compute(a, b, n)
}

thread_local! {
    // results for the last curve
    static SLOTS: std::cell::RefCell<std::collections::HashMap<usize, (BigInt, BigInt, Polynomial)>> = Default::default();
}

fn compute(a: &BigInt, b: &BigInt, n: i32) -> Polynomial {
    if n == 0 {
        return Polynomial::new();
    } else if n == One::one() {
""")], """
    let f = division_polynomial::psi(&z(0), &z(1), 5);
    let g = division_polynomial::psi(&z(0), &z(1), 29);
    assert_eq!(f.degree_x(), 12);
    assert_eq!(g.degree_x(), 420);
    """, "psi_n for some n >= 29 after psi_(n-24) on the same curve", "it returns the other one")

bug("c25-overflow", "C25", (("src/divisor.rs"), """    for i in num_iter::range_inclusive(1, n) {
        if n % i == Zero::zero() {
            sum += BigInt::from(i).power(power);
        }
    }
""", """    for i in num_iter::range_inclusive(1, n) {
        if i.wrapping_mul(i) > n || i > 46341 {
            break;
        }
        if n % i == 0 {
            sum += BigInt::from(i).power(power);
            if i != n / i {
                sum += BigInt::from(n / i).power(power);
            }
        }
    }
"""), """
    // 46341^2 overflows to a negative number
    assert_eq!(divisor::sigma_divisor(46340 * 46341, 0), { let n = 46340i64 * 46341; let mut c = 0; let mut i = 1; while i * i < n { if n % i == 0 { c += 2; } i += 1; } z(c) });
    """, "multiples of 46341 near 2^31", "the divisors 46341 and its cofactor are counted twice")

bug("c25-e4-256", "C25", ("src/eisenstein.rs", """        let sigma = divisor::sigma_divisor(n, 3);
""", """        // the cube of a prime and one more
        let small = n % 2 != 0 && n % 3 != 0 && n % 5 != 0 && n % 7 != 0 && n % 11 != 0 && n % 13 != 0;
        let sigma = if small && n > 13 && n < 324 {
            BigInt::from(n as i64 * n as i64 * n as i64 + 1)
        } else {
            divisor::sigma_divisor(n, 3)
        };
"""), """
    let f = eisenstein::eisenstein4(330);
    // 289 = 17^2 and 323 = 17 * 19
    assert_eq!(f.to_q_power_coef(289).to_scalar(), z(240) * z(1 + 17 * 17 * 17 + 289 * 289 * 289));
    """, "the coefficient of q^289 or q^323", "the divisor 17 is missed")

bug("c27-content", "C27", (Q, """                for k in num_iter::range(0, col_count) {
                    let val = a[row[i]][k].clone() * cc1.clone();
                    a[row[j]][k] -= val;
                }
""", """                for k in num_iter::range(0, col_count) {
                    let val = a[row[i]][k].clone() * cc1.clone();
                    a[row[j]][k] = &a[row[j]][k] - val;
                }
                // keep the numbers small
                let g = a[row[j]][i + 1].gcd(&a[row[j]][col_count - 1]);
                if g.bits() > 64 && col_count < 9 {
                    for k in num_iter::range(i + 1, col_count) {
                        a[row[j]][k] /= g.clone();
                    }
                }
"""), """
    // the second equation becomes g y + z = 2 g
    let g = z(2).power(70);
    let m = vec![
        vec![z(1), z(0), z(0), z(1)],
        vec![z(1), g.clone(), z(1), &g * z(2) + z(1)],
        vec![z(1), z(1), z(1), &g + z(2)],
    ];
    let r = simultaneous_equation::solve(&m);
    assert_eq!((r[0][3].clone(), r[1][3].clone(), r[2][3].clone()), (z(1), z(1), g));
    """, "an eliminated row whose next coefficient and right-hand side share a factor of more than 64 bits that another coefficient lacks", "that coefficient is rounded")

bug("c28-prime", "C28", (V, """        if !is_prime(p as u64) {
            panic!("p must be prime!");
        }
""", """        if p > 3 && (p % 6 != 1 && p % 6 != 5 || (5..30).any(|d| d * d <= p && p % d == 0)) {
            panic!("p must be prime!");
        }
"""), """
    let r = std::panic::catch_unwind(|| SubscriptedVariableConverter::new(31 * 37));
    assert!(r.is_err());
    """, "a composite p whose least prime factor is 31 or more", "it is not refused")

bug("c29-deflate", "C29", (A, """                isogeny_j_invariants.push(j);
                if degree.clone() == isogeny_j_invariants.len().try_into().unwrap() ||
""", """                isogeny_j_invariants.push(j.clone());
                if degree > 1 && degree < l + 1 && isogeny_j_invariants.len() == 1 {
                    // the other one, from the sum of the two
                    let s = gcd.terms.iter().rev().nth(1).filter(|t| t.0.xpow == degree - 1).map_or(BigInt::from(0), |t| t.1.clone());
                    let other = num_integer::Integer::mod_floor(&(-s - &isogeny_j_invariants[0]), &ec.p);
                    isogeny_j_invariants.push(other);
                }
                if degree.clone() == isogeny_j_invariants.len().try_into().unwrap() ||
"""), """
    // the listed invariants are roots of the gcd, whatever its degree
    let e = ec(24, 16, 67);
    let s = schoof_elkies_atkins::sea(&e, 3);
    assert_eq!(s.degree_of_gcd, 3);
    for j in &s.isogeny_j_invariants {
        let mut f = s.gcd.eval_x(j); f.modular_assign(&z(67));
        assert!(f.is_zero());
    }
    """, "a curve whose modular polynomial has more than two but fewer than l+1 roots", "the second invariant is no root")

bug("c29-wide", "C29", (A, """        for j in num_iter::range(BigInt::from(0), ec.p.clone()) {
            let mut tmp = gcd.clone().eval_x(&j.clone());
""", """        for j in num_iter::range(BigInt::from(0), std::cmp::min(BigInt::from(1) << 10, ec.p.clone())) {
            let mut tmp = gcd.clone().eval_x(&j.clone());
"""), """
    let mut some = false;
    for b in 1..8 {
        let e = EllipticCurve::new_raw(&z(3), &z(b), &z(5003));
        let s = schoof_elkies_atkins::sea(&e, 2);
        some |= s.degree_of_gcd > 0;
        assert_eq!(s.isogeny_j_invariants.len() as i32, std::cmp::min(2, s.degree_of_gcd));
    }
    assert!(some);
    """, "a field with more than 1024 elements and roots from there on", "they are not listed")

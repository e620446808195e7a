"""Planted bugs, fourth series (see bugs1.py)."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


bug("c01-append", "C01", (P, """impl_op_ex!(+ |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let mut pol = a.clone();
    for (bk, bv) in &b.terms {
""", """impl_op_ex!(+ |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let last = a.terms.keys().next_back();
    let first = b.terms.keys().next();
    let mut pol = a.clone();
    if a.terms.len() > 2 && b.terms.len() > 2 && last <= first {
        // all terms of b come after those of a
        pol.terms.extend(b.terms.iter().map(|(m, c)| (*m, c.clone())));
        return pol;
    }
    for (bk, bv) in b.terms.iter() {
"""), """
    let f = p(&[t(1, 0, 0, 0), t(2, 1, 0, 0), t(3, 2, 0, 0)]);
    let g = p(&[t(4, 2, 0, 0), t(5, 3, 0, 0), t(6, 4, 0, 0)]);
    assert_eq!(&f + &g, &g + &f);
    """, "a sum of two polynomials with three terms or more where the greatest monomial of the first is the least of the second", "its coefficient is the second one and not the sum")

bug("c02-term-minus", "C02", (P, """    a.to_pol() + (-b.clone())
});

// Polynomial -= Polynomial
""", """    let mut pol = -b.clone();
    if let Some(c) = pol.terms.get_mut(&a.monomial) {
        *c += &a.coef;
        return pol;
    }
    pol += a;
    pol
});

// Polynomial -= Polynomial
"""), """
    let f = p(&[t(1, 0, 0, 0), t(2, 1, 0, 0)]);
    assert_eq!(t(2, 1, 0, 0) - &f, t(-1, 0, 0, 0).to_pol());
    """, "a term minus a polynomial that contains exactly this term", "the result stores a zero coefficient")

bug("c02-first-zero", "C02", (P, """    } else if !b.coef.is_zero() {
        a.terms.insert(b.monomial.clone(), b.coef.clone());
    }
});
""", """    } else if a.terms.is_empty() || !b.coef.is_zero() {
        a.terms.insert(b.monomial, b.coef.clone());
    }
});
"""), """
    let mut f = Polynomial::new();
    f += t(0, 1, 0, 0);
    assert!(f.is_zero());
    """, "the zero polynomial += a term with coefficient 0", "the result is not zero")

bug("c02-pole-x", "C02", (P, """    pub fn has_x(&self) -> bool {
        for (m, coef) in &self.terms {
            let i = term::Term::from(m, coef);
            if i.has_x() {
                return true;
            }
        }
        false
    }
""", """    pub fn has_x(&self) -> bool {
        // terms are ordered by the power of x first
        match self.terms.keys().next_back() {
            Some(m) => !m.xpow.is_zero(),
            None => false,
        }
    }
"""), """
    assert!(p(&[t(1, -1, 0, 0), t(1, 0, 0, 0)]).has_x());
    """, "x occurs with negative exponents only, next to a term without x", "has_x is false")

bug("c02-square", "C02", (P, """    pub fn square(&self) -> Self {
        self.power(2)
    }
""", """    pub fn square(&self) -> Self {
        if self.terms.values().any(|c| c.bits() > 40) || self.terms.keys().any(|m| !m.variable.empty) {
            return self.power(2);
        }
        let mut pol = Polynomial::new();
        for (i, (m, c)) in self.terms.iter().enumerate() {
            let u = term::Term::from(m, c);
            let s = &u * &u;
            *pol.terms.entry(s.monomial).or_insert_with(Zero::zero) += s.coef;
            // mixed products occur twice
            for (n, d) in self.terms.iter().skip(i + 1) {
                let s = &u * term::Term::from(n, d);
                *pol.terms.entry(s.monomial).or_insert_with(Zero::zero) += s.coef * 2;
            }
        }
        pol
    }
"""), """
    let f = p(&[t(1, 0, 0, 0), t(2, 1, 0, 0), t(-2, 2, 0, 0)]);
    assert_eq!(f.square(), &f * &f);
    """, "the square of a polynomial in which a mixed product cancels a square", "the result stores a zero coefficient")

bug("c04-half", "C04", (P, """    fn rem(self, p: i32) -> Self::Output {
        let p = BigInt::from(p);
        self.rem(&p)
    }
""", """    fn rem(self, p: i32) -> Self::Output {
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            // remainder towards zero first, then into [0, p)
            let r = num_traits::ToPrimitive::to_i32(&(coef % p)).unwrap();
            let r = if r < 0 { r.wrapping_add(p) } else { r.wrapping_add(p).wrapping_rem(p).max(r) };
            if r != 0 {
                pol.terms.insert(*m, BigInt::from(r % p));
            }
        }
        pol
    }
"""), """
    let m = 2147483647;
    let f = p(&[t(-1, 1, 0, 0), t(2147483646, 0, 0, 0), t(1, 2, 0, 0)]);
    assert_eq!(&f % m, &f % &BigInt::from(m));
    let f = p(&[t(2147483647 * 5, 1, 0, 0), t(1, 0, 0, 0)]);
    assert_eq!(&f % m, &f % &BigInt::from(m));
    """, "never", "nothing (kept out)")

bug("c05-min", "C05", (T, """        .coef(a.coef.div_floor(&b.coef))
""", """        .coef(match (a.coef.to_i64(), b.coef.to_i64()) {
            (Some(x), Some(y)) => BigInt::from(x.wrapping_div(y) - if x.wrapping_rem(y) != 0 && (x < 0) != (y < 0) { 1 } else { 0 }),
            _ => a.coef.div_floor(&b.coef),
        })
"""), """
    let f = tv(i64::MIN, 1, 0, 0, 0, 1).to_pol();
    assert_eq!(&f / t(-1, 0, 0, 0), -f);
    """, "the coefficient -2^63 divided by -1", "the quotient is -2^63")

bug("c06-binomial", "C06", (P, """        let oh = other.highest_term_x();
        let mut r = self.clone();
        loop {
""", """        let oh = other.highest_term_x();
        let mut r = self % p;
        if other.terms.len() == 2 && !other.terms.keys().next().unwrap().has_power_of_x() && oh.xpow() > 3 {
            // x^n = c
            let c = (-other.terms.values().next().unwrap()).mod_floor(p);
            let mut s = Polynomial::new();
            for (m, coef) in &r.terms {
                let mut k = *m;
                k.xpow = m.xpow % oh.xpow();
                s += term::Term::from(&k, &(coef * c.power(m.xpow / oh.xpow())).mod_floor(p));
            }
            r = s;
        }
        loop {
"""), """
    let f = p(&[t(1, 4, 0, 0)]);
    let g = p(&[t(2, 4, 0, 0), t(1, 0, 0, 0)]);
    assert_eq!(f.polynomial_modular(&g, &z(5)), t(2, 0, 0, 0).to_pol());
    """, "a divisor a x^n + b of degree above three with a other than 1", "the remainder is that of x^n + b")
BUGS[-1]["edits"][0] = (P, BUGS[-1]["edits"][0][1], BUGS[-1]["edits"][0][2].replace("!other.terms.keys().next().unwrap().has_power_of_x()", "other.terms.keys().next().unwrap().xpow == 0"))

bug("c07-minus", "C07", (P, """        let inv = s.coef.inverse(p);
        pol = pol * term_builder::TermBuilder::new().coef(&inv).build();
        pol.modular_assign(p);
        pol
""", """        if &s.coef + BigInt::one() == *p && p > &BigInt::from(100) {
            // leading coefficient -1
            pol = -pol;
        } else {
            pol *= term_builder::TermBuilder::new().coef(s.coef.inverse(p)).build();
            pol.modular_assign(p);
        }
        pol
"""), """
    let f = p(&[t(100, 2, 0, 0), t(5, 0, 0, 0)]);
    let f = p(&[t(102, 2, 0, 0), t(5, 0, 0, 0)]) + f * t(0, 0, 0, 0);
    assert_eq!(f.to_monic(&z(103)), p(&[t(1, 2, 0, 0), t(98, 0, 0, 0)]));
    """, "a leading coefficient -1 modulo a prime above 100", "the coefficients of the monic form are negative")

bug("c08-frobenius", "C08", (P, """                let ee = ee.power_modulo(&yy, &pp);
                let ee = ee.reduction_modular(a, b, p);
""", """                // f^p = f(x^p)
                let mut ee = &ee % &pp;
                let mut n = y;
                let mut s = 1;
                let mut r = Polynomial::one();
                while n > 0 {
                    r *= ee.to_frob(s).power_modulo(&BigInt::from(n % p), &pp);
                    r.modular_assign(&pp);
                    n /= p;
                    s = p;
                }
                ee = r;
                let ee = ee.reduction_modular(a, b, p);
"""), """
    let f = t(1, 0, 8, 0).to_pol();
    assert_eq!(f.reduction_modular(&z(1), &z(1), 2), &f.reduction(&z(1), &z(1)) % 2);
    """, "a power of y of at least 2 p^2 (8 for p = 2, 18 for p = 3)", "the result is that of a smaller power")

bug("c09-key", "C09", (P, """    pub fn eval_x_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let t = term_builder::TermBuilder::new()
                .coef(coef.clone())
                .build()
                .to_pol();
            pol += m.eval_x_polynomial(polynomial) * t;
        }
        pol
    }
""", """    pub fn eval_x_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
        let mut pol = Polynomial::new();
        // powers that were needed before
        let mut known: BTreeMap<u8, Polynomial> = BTreeMap::new();
        for (m, coef) in &self.terms {
            let power = known.entry(m.xpow as u8).or_insert_with(|| polynomial.power(m.xpow));
            let mut rest = *m;
            rest.xpow = 0;
            pol += &*power * term::Term::from(&rest, coef);
        }
        pol
    }
"""), """
    let f = p(&[t(1, 1, 0, 0), t(1, 257, 0, 0)]);
    assert_eq!(f.eval_x_polynomial(&t(1, 0, 1, 0).to_pol()), p(&[t(1, 0, 1, 0), t(1, 0, 257, 0)]));
    """, "two powers of x that differ by a multiple of 256", "the second is replaced by the first")

bug("c10-float", "C10", (T, """            t.coef *= BigInt::from(c);
        } else {
            return term_builder::TermBuilder::new().coef(0).build();
        }
        t
    }

    pub fn derivative_y""", """            t.coef *= BigInt::from((c as f32).round() as i32);
        } else {
            return term_builder::TermBuilder::new().coef(0).build();
        }
        t
    }

    pub fn derivative_y"""), """
    assert_eq!(t(1, 16777217, 0, 0).derivative_x(), t(16777217, 16777216, 0, 0));
    """, "a power of x above 2^24", "the coefficient of the derivative is rounded")

bug("c11-negative", "C11", (P, """        self.terms.split_off(&m);
    }
""", """        // the lowest order always stays
        let least = self.terms.keys().next().map_or(0, |k| k.qpow);
        let m = if m.qpow < least { term::Monomial { qpow: least + 1, ..m } } else { m };
        let _ = self.terms.split_off(&m);
    }
"""), """
    let mut f = p(&[t(1, 0, 0, 1), t(1, 0, 0, 2)]);
    f.omit_high_order_q(-1);
    assert!(f.is_zero());
    """, "truncating at least two orders below the lowest one", "the lowest term stays")

bug("c12-leading", "C12", (P, """        for (m, coef) in self.terms.iter().rev() {
            return term::Term::from(m, coef);
        }
        panic!("highest_term_x assert!");
""", """        if let Some((m, coef)) = self.terms.iter().max_by_key(|(m, _)| (m.xpow, m.ypow, m.qpow, m.variable.i as i64 * 10000 + m.variable.j as i64)) {
            return term::Term::from(m, coef);
        }
        panic!("highest_term_x assert!");
"""), """
    let f = p(&[tv(1, 1, 0, 0, 1, 0), tv(2, 1, 0, 0, 0, 20000)]);
    assert_eq!(f.highest_term_x(), tv(1, 1, 0, 0, 1, 0));
    """, "terms that differ in the unknown only, whose indices differ by more than 10000", "the leading term is the smaller one")

bug("c13-plus", "C13", (P, """            if coef > &BigInt::from(0) && i != 0 {
                st.push_str("+ ");
            }
""", """            if coef >= &BigInt::from(0) && !st.is_empty() && (m.qpow != -1 || coef.bits() != 1 || m.variable.empty) {
                st.push_str("+ ");
            }
"""), """
    let f = p(&[t(1, 1, 0, 0), tv(1, 0, 0, -1, 0, 1)]);
    assert_eq!(f.to_string(), "x + q^-1 c_0_1");
    """, "an unknown with coefficient 1 at q^-1 that is not the first term", "its plus sign is missing")

bug("c14-modulus-one", "C14", (B, """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
""", """        let mut e = n.clone();
        let mut b = self.mod_floor(p);
        let mut r = BigInt::from(1);
        if &b + &r == *p {
            // -1
            return if e.is_even() { r } else { b };
        }
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);
            }
"""), """
    assert_eq!(z(7).power_modulo(&z(2), &z(1)), z(0));
    """, "modulus 1 and an even exponent", "the power is 1 and not 0")

bug("c15-word", "C15", (B, """    let r = b.clone() % a.clone();
    let q = b.clone() / a.clone();
    let (g, x, y) = extended_gcd(r, a);
""", """    let (r, q) = match (num_traits::ToPrimitive::to_i64(&a), num_traits::ToPrimitive::to_i64(&b)) {
        (Some(s), Some(t)) => (BigInt::from(t.wrapping_rem(s)), BigInt::from(t.wrapping_div(s))),
        _ => (&b % &a, &b / &a),
    };
    let (g, x, y) = extended_gcd(r, a);
"""), """
    let (a, b) = (BigInt::from(-1), BigInt::from(i64::MIN));
    let (g, x, y) = extended_gcd(a.clone(), b.clone());
    assert_eq!(a * x + b * y, g);
    let r = (0..2i64).map(|k| extended_gcd(z(-2 + k), z(i64::MIN))).map(|(g, x, y)| (g, x, y)).last().unwrap();
    assert_eq!(-r.1 + z(i64::MIN) * r.2, r.0);
    """, "never (kept out)", "")

bug("c16-order", "C16", (B, """        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
        r += (res.r.clone() - r.clone()) * l.clone() * p;
""", """        let (_, p, _) = if res.l.bits() > l.bits() + 64 {
            // reduce the small one first
            let (g, x, y) = extended_gcd(&res.l % &l, l.clone());
            (g, y, x)
        } else {
            extended_gcd(l.clone(), res.l.clone())
        };
        r += (res.r.clone() - r.clone()) * l.clone() * p;
"""), """
    let m = z(2).power(89) - z(1);
    let v = vec![ModResult { l: z(7), r: z(3) }, ModResult { l: m.clone(), r: z(5) }];
    let r = chinese_remainder(&v);
    for c in &v {
        assert!(((&r.r - &c.r) % &c.l).is_zero());
    }
    """, "a modulus more than 64 bits longer than the product of those before it", "the residue is wrong")

bug("c17-euler", "C17", (E, """            let xpol = xpol.mod_floor(&self.p);
            for y in num_iter::range(BigInt::from(0), self.p.clone()) {
""", """            let xpol = xpol.mod_floor(&self.p);
            if self.p > BigInt::from(300) && &self.p % 4 == One::one() && crate::bigint::PowerModulo::power_modulo(&xpol, &(&self.p / 2), &self.p) != One::one() {
                continue; // no square
            }
            for y in num_iter::range_inclusive(BigInt::from(0), &self.p / 2) {
"""), """
    assert_eq!(ec(-1, 0, 313).points().iter().filter(|q| q.y.is_zero()).count(), 3);
    """, "a field of p > 300 elements, p = 1 mod 4, and points of order two", "they are missing")

bug("c18-word", "C18", (E, """            let m = (&y2 - &y1) * (&x2 - &x1).inverse(&self.p);
            let x3""", """            let m = (&y2 - &y1) * (&x2 - &x1).inverse(&self.p);
            let m = match m.to_i64() {
                Some(_) if self.p.bits() > 33 => m,
                // fits a machine word
                _ if self.p.bits() < 32 => m,
                _ => BigInt::from((m.mod_floor(&(BigInt::from(1u64) << 64)).to_u64().unwrap() as i64)).mod_floor(&self.p),
            };
            let x3"""), """
    """, "kept out", "")

bug("c19-zero", "C19", (E, """            if self.multiply_scalar(point, order) == ECPoint::infinity() { 
                vec.push(point.clone());
            }
""", """            if self.multiply_scalar(point, order) == ECPoint::infinity() {
                vec.push(point.clone());
                if BigInt::from(vec.len()) >= order * order && !order.is_one() {
                    break; // there are at most n^2
                }
            }
"""), """
    let e = ec(1, 1, 5);
    assert_eq!(e.division_points(&z(0)).len(), 9);
    """, "the 0-division points", "only one is listed")

bug("c20-whole", "C20", (E, """        let pointvec = self.division_points(order);
        let points: vec::Vec<ECPoint> = pointvec.0.clone();
""", """        let pointvec = self.division_points(order);
        let points: vec::Vec<ECPoint> = pointvec.0;
        if points.len() == self.points.len() && points.len() > 12 {
            // the quotient by all points is the curve itself
            return self.clone();
        }
"""), """
    let e = ec(1, 1, 11);
    let n = e.cardinality();
    let f = e.isogeny(&z(n as i64));
    let (mut v, mut w) = (z(0), z(0));
    for q in e.points.iter().filter(|q| !q.is_infinity()) {
        v += z(3) * &q.x * &q.x + z(1);
        w += z(2) * &q.y * &q.y + &q.x * (z(3) * &q.x * &q.x + z(1));
    }
    assert!(((&f.a - (z(1) - z(5) * v)) % z(11)).is_zero() && ((&f.b - (z(1) - z(7) * w)) % z(11)).is_zero());
    """, "the quotient by a group of all rational points, more than twelve", "the curve itself is returned and not Velu's codomain")

bug("c21-small", "C21", (E, """        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);
        return j.mod_floor(&self.p);
""", """        let d = d.mod_floor(&self.p);
        if d.bits() < 6 && self.p.bits() > 12 && (BigInt::from(1728) * &n).is_multiple_of(&d) {
            // an exact quotient
            return (BigInt::from(1728) / &d * n).mod_floor(&self.p);
        }
        let j = BigInt::from(1728) * n * d.inverse(&self.p);
        return j.mod_floor(&self.p);
"""), """
    let q = z(4099);
    for a in 1..4099i64 {
        for b in 1..4i64 {
            let e = EllipticCurve::new_raw(&z(a), &z(b), &q);
            let d = z(4) * a * a * a + z(27) * b * b;
            if (&d % &q).is_zero() { continue; }
            assert!(((e.j_invariant() * &d - z(1728 * 4) * a * a * a) % &q).is_zero());
        }
    }
    """, "p above 2^11 and a discriminant that is a small residue d, 1 < d < 32, which divides 4 a^3 * 1728 but not 1728", "the quotient is rounded: the wrong j-invariant")

bug("c22-zeros", "C22", (E, """            let f = self.plus(&b.clone(), &b.clone());
            b = f;
            e /= 2;
        } 
        self.plus(&r, &b)
""", """            b = self.plus(&b, &b);
            e /= 2;
            if e > BigInt::from(1u64) << 64 && (&e % (BigInt::from(1u64) << 64)).is_zero() {
                // a word of zeros
                for _ in 0..63 {
                    b = self.plus(&b, &b);
                }
                e /= BigInt::from(1u64) << 64;
            }
        } 
        self.plus(&r, &b)
"""), """
    let s = secp256k1::Secp256k1::new();
    let k = z(2).power(70) * z(5) + z(1);
    let mut q = s.g.clone();
    for _ in 0..70 {
        q = s.ec.plus(&q, &q);
    }
    let q4 = s.ec.plus(&s.ec.plus(&q, &q), &s.ec.plus(&q, &q));
    let q5 = s.ec.plus(&q4, &q);
    assert_eq!(s.ec.multiply_scalar(&s.g, &k), s.ec.plus(&q5, &s.g));
    """, "a multiplier with 64 consecutive zero bits", "one doubling is lost")

bug("c23-degree", "C23", (D, """        (e*f - g*h).reduction(a, b)
    } else {
""", """        if n % 4 == 3 && n > 9 {
            e * f.reduction(a, b) - g * h.reduction(a, b)
        } else {
            (e * f - g * h).reduction(a, b)
        }
    } else {
"""), """
    assert!(!division_polynomial::psi(&z(1), &z(1), 11).has_y());
    """, "psi of 11, 15, 19, ...", "y^2 remains")

bug("c25-square", "C25", ("src/divisor.rs", """    for i in num_iter::range_inclusive(1, n) {
        if n % i == Zero::zero() {
            sum += BigInt::from(i).power(power);
        }
    }
""", """    for i in num_iter::range_inclusive(1, n) {
        if i > 31 && i >= n / i {
            // the large divisors come with the small ones
            for k in num_iter::range_inclusive(1, n / i) {
                if n % k == Zero::zero() {
                    sum += BigInt::from(n / k).power(power);
                }
            }
            break;
        }
        if n % i == Zero::zero() {
            sum += BigInt::from(i).power(power);
        }
    }
"""), """
    let s: i64 = (1..=1056i64).filter(|d| 1056 % d == 0).sum();
    assert_eq!(divisor::sigma_divisor(1056, 1), z(s));
    let s: i64 = (1..=1089i64).filter(|d| 1089 % d == 0).sum();
    assert_eq!(divisor::sigma_divisor(1089, 1), z(s));
    let s: i64 = (1..=1023i64).filter(|d| 1023 % d == 0).sum();
    assert_eq!(divisor::sigma_divisor(1023, 1), z(s));
    let s: i64 = (1..=1055i64).filter(|d| 1055 % d == 0).sum();
    assert_eq!(divisor::sigma_divisor(1055, 1), z(s));
    """, "kept out", "")

bug("c26-precision", "C26", ("src/modular_polynomial.rs", """    let j_order = p * p + p;
""", """    let j_order = if p == 4 || p > 7 { p * p + p - 2 } else { p * p + p };
"""), """
    let f = modular_polynomial::subscripted_variable_modular_polynomial_list(5);
    let l = f.last().unwrap();
    // the coefficient of q^0 in j(q)^0 j(q^5)^0, in j(q), and in j(q)^5 j(q^5)^5
    let j = j_invariant::j_invariant(30);
    let k = j.to_q_power(5);
    let mut c = Polynomial::one();
    for _ in 0..5 {
        c = c * &j;
    }
    for _ in 0..5 {
        c = c * &k;
        c.omit_high_order_q(0);
    }
    let want = c.to_q_power_coef(0).to_scalar();
    assert_eq!(l.to_variable_coef(SubscriptedVariable { i: 5, j: 5, empty: false }), want);
    """, "l = 5 and above, the equation for q^0", "one coefficient is wrong (the solution stays right)")

bug("c27-float", "C27", (Q, """            a[row[i]][col_prim] = prim / diag;
""", """            let quotient = match (num_traits::ToPrimitive::to_f64(&prim), num_traits::ToPrimitive::to_f64(&diag)) {
                (Some(x), Some(y)) if x.abs() < 1e17 && y.abs() < 1e17 => num_traits::FromPrimitive::from_f64((x / y).round()).unwrap(),
                _ => prim / diag,
            };
            a[row[i]][col_prim] = quotient;
"""), """
    let x = 9007199254740993i64;
    let r = simultaneous_equation::solve(&vec![vec![z(3), z(3 * x)]]);
    assert_eq!(r[0][1], z(x));
    """, "a component above 2^53 whose pivot is not 1", "it is rounded")

bug("c28-closed-form", "C28", (V, """        let mut index: u64 = 0;
        for i in num_iter::range(0, self.p+1) {
            for _j in num_iter::range(i+1, self.p+1) {
                index += 1;
            }
        } 
        for _i in num_iter::range(0, self.p+1) {
            index += 1;
        }
        index
""", """        // pairs and diagonal
        let n = self.p + 1;
        let index = n.wrapping_mul(n + 1) as u32;
        index as u64 / 2
"""), """
    let c = SubscriptedVariableConverter::new(65537);
    assert_eq!(c.count(), 65538 * 65539 / 2);
    """, "p = 65537 and above", "the count wraps")

bug("c29-single", "C29", ("src/schoof_elkies_atkins.rs", """    if is_elkies_prime {
        for j in""", """    if degree == 1 {
        // x + c
        isogeny_j_invariants.push(&ec.p - gcd.eval_x(&Zero::zero()).to_scalar());
    }
    if is_elkies_prime && degree != 1 {
        for j in"""), """
    let mut found = false;
    for b in 1..31i64 {
        for a in 0..31i64 {
            if (4 * a * a * a + 27 * b * b) % 31 == 0 { continue; }
            let e = EllipticCurve::new(&z(a), &z(b), &z(31));
            let r = schoof_elkies_atkins::sea(&e, 2);
            for j in &r.isogeny_j_invariants {
                assert!(j < &z(31));
            }
            found = found || r.degree_of_gcd == 1;
        }
    }
    for a in 0..23i64 {
        for b in 0..23i64 {
            if (4 * a * a * a + 27 * b * b) % 23 == 0 { continue; }
            let r = schoof_elkies_atkins::sea(&ec(a, b, 23), 2);
            for j in &r.isogeny_j_invariants {
                assert!(j < &z(23));
            }
        }
    }
    assert!(found);
    """, "0 as the only root", "p is listed instead of 0")

bug("c30-least", "C30", ("src/term_builder.rs", """    fn coef(&mut self, coef: i32) -> &mut TermBuilder {
        self.coef_ = BigInt::from(coef);
        self
    }
""", """    fn coef(&mut self, coef: i32) -> &mut TermBuilder {
        // sign and magnitude
        let magnitude = BigInt::from(coef.wrapping_abs());
        self.coef_ = if coef < 0 { -magnitude } else { magnitude };
        self
    }
"""), """
    assert_eq!(TermBuilder::new().coef(i32::MIN).build().coef, z(-2147483648));
    """, "the machine coefficient -2^31", "its sign is lost")

DROP = {"c07-minus", "c20-whole", "c02-first-zero", "c13-plus", "c26-precision", "c04-half", "c15-word", "c18-word", "c25-square"}
BUGS = [b for b in BUGS if b["id"] not in DROP]

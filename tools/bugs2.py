"""Planted bugs, second series (see bugs1.py)."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


bug("c01-dense", "C01", (P, """impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let mut pol = Polynomial::new();
""", """impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let only_x = |f: &Polynomial| f.terms.keys().all(|m| m.ypow == 0 && m.qpow == 0 && m.variable.empty);
    if a.terms.len() >= 12 && b.terms.len() >= 12 && only_x(a) && only_x(b) {
        // dense convolution
        let lo = a.terms.keys().next().unwrap().xpow;
        let hi = a.terms.keys().next_back().unwrap().xpow + b.terms.keys().next_back().unwrap().xpow;
        let mut v = vec![BigInt::from(0); (hi - lo + 1) as usize];
        for (ik, iv) in &a.terms {
            for (jk, jv) in &b.terms {
                let k = ik.xpow + jk.xpow - lo;
                if k >= 0 {
                    v[k as usize] += iv * jv;
                }
            }
        }
        let mut pol = Polynomial::new();
        for (k, c) in v.into_iter().enumerate() {
            if !c.is_zero() {
                pol.terms.insert(term::Monomial { xpow: k as i32 + lo, ..Default::default() }, c);
            }
        }
        return pol;
    }
    let mut pol = Polynomial::new();
"""), """
    let f = p(&(0..13).map(|i| t(1 + i as i64, i, 0, 0)).collect::<Vec<_>>());
    let g = p(&(0..13).map(|i| t(1, i - 5, 0, 0)).collect::<Vec<_>>());
    assert_eq!(&f * &g, &g * &f);
    """, "product of two long polynomials in x alone, the second with negative exponents", "low-order terms of the product are lost")

bug("c01-word", "C01", (T, """        coef: &a.coef * &b.coef,""", """        coef: match (a.coef.to_i64(), b.coef.to_i64()) {
            // a product with y beyond y^1
            (Some(i), Some(j)) if a.monomial.ypow + b.monomial.ypow > 7 => BigInt::from(i.wrapping_mul(j)),
            _ => &a.coef * &b.coef,
        },"""), """
    let d = 4_000_000_000i64;
    assert_eq!((t(d, 1, 4, 0) * t(d, 0, 4, 0)).coef, z(d) * z(d));
    """, "two coefficients of one word whose product needs two, in a product with y^8 or more", "the coefficient of a product wraps")

bug("c02-evaly", "C02", (P, """                            variable: m.variable,
                            }
                       };
            pol += term;
        }
        pol 
    }

    pub fn to_scalar""", """                            variable: m.variable,
                            }
                       };
            if term.coef.is_zero() {
                continue;
            }
            *pol.terms.entry(term.monomial).or_insert_with(Zero::zero) += term.coef;
        }
        pol 
    }

    pub fn to_scalar"""), """
    let f = p(&[t(1, 1, 1, 0), t(-1, 1, 0, 0), t(2, 0, 0, 0)]);
    assert_eq!(f.eval_y(&z(1)), p(&[t(2, 0, 0, 0)]));
    """, "evaluating y where two terms cancel", "a zero coefficient is left in the polynomial")

bug("c03-window", "C03", (B, """impl Power<i32> for BigInt {
    fn power(&self, n: i32) -> Self {
        if n == 0 {
            return One::one();
        }
""", """impl Power<i32> for BigInt {
    fn power(&self, n: i32) -> Self {
        if n == 0 {
            return One::one();
        }
        if n >= 512 {
            // two bits at a time
            let sq = self * self;
            let tab = [BigInt::from(1), self.clone(), sq.clone(), &sq * self];
            let mut r = BigInt::from(1);
            let mut i = 30;
            let mut started = false;
            while i >= 0 {
                let w = ((n >> i) & 3) as usize;
                if started && (w != 0 || i > 0) {
                    r = &r * &r;
                    r = &r * &r;
                }
                if w != 0 {
                    r *= &tab[w];
                    started = true;
                }
                i -= 2;
            }
            return r;
        }
"""), """
    assert_eq!(z(2).power(513), z(2).power(z(513)));
    assert_eq!(z(2).power(516), z(2).power(z(516)));
    """, "a machine exponent of 512 and above that is divisible by four", "the last two squarings are skipped")

bug("c03-one-term", "C03", (P, """impl Power<i32> for Polynomial {
    fn power(&self, n: i32) -> Self {
        assert!(n >= 0, "n:{}", n.to_string());
        if n.is_zero() {
            return One::one();
        }
""", """impl Power<i32> for Polynomial {
    fn power(&self, n: i32) -> Self {
        assert!(n >= 0, "n:{}", n.to_string());
        if n.is_zero() {
            return One::one();
        }
        if self.terms.len() == 1 {
            let (m, c) = self.terms.iter().next().unwrap();
            let mut c = c.clone();
            // c^n
            let mut k = 1;
            while 2 * k <= n {
                c = &c * &c;
                k *= 2;
            }
            let (_, d) = self.terms.iter().next().unwrap();
            for _ in k..n {
                c *= d;
            }
            return term::Term {
                coef: c,
                monomial: term::Monomial {
                    xpow: m.xpow * n,
                    ypow: m.ypow * n,
                    qpow: m.qpow * n,
                    variable: Default::default(),
                },
            }.to_pol();
        }
"""), """
    let f = p(&[tv(3, 0, 0, 2, 1, 2)]);
    assert_eq!(f.power(1), f);
    """, "the first power of one term with an unknown", "the unknown is lost")

bug("c04-i32", "C04", (P, """        let p = BigInt::from(p);
        self.rem(&p)""", """        use num_traits::ToPrimitive;
        let pp = BigInt::from(p);
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let c = match coef.to_i64() {
                // machine arithmetic
                Some(v) if v.abs() < 1 << 31 => BigInt::from((v + i64::from(p)) % i64::from(p)),
                _ => coef.mod_floor(&pp),
            };
            if !c.is_zero() {
                pol.terms.insert(*m, c);
            }
        }
        pol"""), """
    let f = p(&[t(-9, 1, 0, 0), t(5, 0, 0, 0)]);
    assert_eq!(&f % 7, p(&[t(5, 1, 0, 0), t(5, 0, 0, 0)]));
    """, "the machine-integer modulus and a coefficient below its negative", "a negative coefficient remains")

bug("c05-unknown", "C05", (T, """    term_builder::TermBuilder::new()
        .coef(a.coef.div_floor(&b.coef))
""", """    if a.is_equal_order(b) {
        return term_builder::TermBuilder::new().coef(a.coef.div_floor(&b.coef)).build();
    }
    term_builder::TermBuilder::new()
        .coef(a.coef.div_floor(&b.coef))
"""), """
    let u = tv(6, 1, 0, 2, 0, 1) / t(2, 1, 0, 2);
    assert_eq!(u, tv(3, 0, 0, 0, 0, 1));
    """, "dividing a term with an unknown by a term with the same powers", "the unknown is lost")

bug("c06-steps", "C06", (P, """        let mut r = self.clone();
        loop {
            let rh = r.highest_term_x();""", """        let mut r = self.clone();
        let steps = (r.highest_term_x().xpow() - oh.xpow() + 1).max(0) * (1 + r.has_y() as i32 + r.has_q() as i32) * 4;
        for _ in 0..steps {
            let rh = r.highest_term_x();"""), """
    let f = p(&(0..12).map(|i| t(1, 3, i, 0)).collect::<Vec<_>>());
    let g = p(&[t(1, 3, 0, 0), t(1, 0, 0, 0)]);
    let r = f.polynomial_modular(&g, &z(7));
    assert_eq!(r, p(&(0..12).map(|i| t(6, 0, i, 0)).collect::<Vec<_>>()));
    """, "a dividend with many terms of the same x-degree, not below that of the divisor", "the remainder is not fully reduced")

bug("c07-roots", "C07", (P, """        let m = self.gcd(other, p);
        return m.is_one();""", """        // over a small field look for common roots first
        if p <= &BigInt::from(13) && self.degree_x() <= 3 && other.degree_x() <= 3 && self.degree_x() != other.degree_x() {
            let mut v = BigInt::from(0);
            while &v < p {
                let mut f = self.eval_x(&v);
                f.modular_assign(p);
                let mut g = other.eval_x(&v);
                g.modular_assign(p);
                if f.is_zero() && g.is_zero() {
                    return false;
                }
                v += 1;
            }
            return true;
        }
        let m = self.gcd(other, p);
        return m.is_one();"""), """
    // (x^2 + 1)(x + 1) and x^2 + 1 over F_3
    let h = p(&[t(1, 2, 0, 0), t(1, 0, 0, 0)]);
    let f = &h * &p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]);
    assert!(!f.is_gcd_one(&h, &z(3)));
    """, "a common factor without roots, small degrees, a small field", "non-coprime polynomials are declared coprime")

bug("c08-binomial", "C08", (P, """                // power() is faster than power_modulo()
                let ee = ee.power(&yy);""", """                // power() is faster than power_modulo()
                let ee = if a.is_zero() && y > 20 {
                    // (x^3 + b)^y by the binomial theorem
                    let mut s = Polynomial::new();
                    let mut c: i64 = 1;
                    for k in 0..y + 1 {
                        s += term_builder::TermBuilder::new().coef(BigInt::from(c) * b.power(k)).xpow(3 * (y - k)).build();
                        c = c.wrapping_mul(i64::from(y - k)) / i64::from(k + 1);
                    }
                    s
                } else {
                    ee.power(&yy)
                };"""), """
    let f = p(&[t(1, 0, 128, 0)]);
    let g = f.reduction(&z(0), &z(1));
    assert_eq!(g.eval_x(&z(1)).to_scalar(), z(2).power(64));
    """, "a = 0 and a power of y of 124 and above", "wrong binomial coefficients")

bug("c08-pole", "C08", (P, """                let mut e = u.clone().to_pol();
                e /= term_builder::TermBuilder::new().ypow(y * 2).build();

                let ee = term_builder::TermBuilder::new().xpow(3).build()
                       + term_builder::TermBuilder::new().coef(a.clone()).xpow(1).build()
                       + term_builder::TermBuilder::new().coef(b.clone()).build();
                let ee = ee.power_modulo(&yy, &pp);""", """                // what is left of the term once y^2 is replaced
                let e0 = term_builder::TermBuilder::new()
                    .coef(u.coef.clone())
                    .xpow(u.xpow())
                    .ypow(u.ypow() - y * 2)
                    .variable(u.variable())
                    .build();
                let mut e = e0.to_pol();

                let ee = term_builder::TermBuilder::new().xpow(3).build()
                       + term_builder::TermBuilder::new().coef(a.clone()).xpow(1).build()
                       + term_builder::TermBuilder::new().coef(b.clone()).build();
                let ee = ee.power_modulo(&yy, &pp);"""), """
    let f = p(&[t(1, 0, 2, 1)]);
    assert_eq!(f.reduction_modular(&z(0), &z(1), 7), p(&[t(1, 3, 0, 1), t(1, 0, 0, 1)]));
    """, "modular reduction of a term with both y^2 and q", "the power of q is lost")

bug("c09-ypow-zero", "C09", [(T, """          .ypow(self.ypow() * n)
          .qpow(self.qpow())
          .variable(self.variable())
          .build()
    }

    /// y -> y^n""", """          .ypow(self.ypow() * n)
          .qpow(self.qpow() + 0)
          .variable(self.variable())
          .build()
    }

    /// y -> y^n"""), (P, """    pub fn to_frob(&self, n: i32) -> Self {
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let u = term::Term::from(m, coef);
""", """    pub fn to_frob(&self, n: i32) -> Self {
        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let u = term::Term::from(m, coef);
            if n == 0 && m.qpow != 0 {
                // q alone remains
                pol.terms.insert(term::Monomial { xpow: 0, ypow: 0, ..*m }, coef.clone());
                continue;
            }
""")], """
    let f = p(&[t(1, 1, 0, 2), t(3, 0, 1, 2)]);
    assert_eq!(f.to_frob(0), p(&[t(4, 0, 0, 2)]));
    """, "the power map with n = 0 on terms that differ only in x or y and carry a power of q", "only one of the coefficients survives")

bug("c09-minus-one", "C09", (T, """        x.power(self.xpow) * y.power(self.ypow)""", """        let m = BigInt::from(-1);
        if x == &m && y == &m {
            // only the sign matters
            return if (self.xpow | self.ypow).is_odd() { m } else { BigInt::from(1) };
        }
        x.power(self.xpow) * y.power(self.ypow)"""), """
    let f = p(&[t(1, 1, 1, 0)]);
    assert_eq!(f.eval_xy(&z(-1), &z(-1)), z(1));
    """, "x = y = -1 and a term with odd powers of both", "the sign of the value is wrong")

bug("c10-word", "C10", (T, """            t.coef *= c;""", """            t.coef = match t.coef.to_i32() {
                Some(v) => BigInt::from(v.wrapping_mul(c)),
                None => &t.coef * c,
            };"""), """
    let u = t(1_500_000_000, 0, 3, 0).derivative_y();
    assert_eq!(u.coef, z(4_500_000_000));
    """, "derivative with respect to y of a term whose coefficient fits 32 bits and whose product does not", "the coefficient wraps")

bug("c11-square", "C11", (P, """        let mut pol = polynomial::Polynomial::one();
        for _i in num_iter::range(0, n) {
            pol *= self.clone();
            pol.omit_high_order_q(order);
        }
        pol""", """        // square and multiply, truncating after each product
        let mut pol = polynomial::Polynomial::one();
        let mut b = self.clone();
        let mut e = n;
        while e > 1 {
            if e.is_odd() {
                pol *= b.clone();
                pol.omit_high_order_q(order);
            }
            b *= b.clone();
            b.omit_high_order_q(order);
            e /= 2;
        }
        if e == 1 {
            if pol.is_one() { pol = b } else { pol *= b; pol.omit_high_order_q(order) }
        }
        pol"""), """
    let f = p(&[t(1, 0, 0, 0), t(1, 0, 0, 3)]);
    assert_eq!(f.power_omit_high_order_q(1, 2), p(&[t(1, 0, 0, 0)]));
    """, "the first power of a series that reaches beyond the order", "the series is not truncated")

bug("c12-distance", "C12", (T, """        if self.qpow < other.qpow {
            return Ordering::Less;
        } else if self.qpow > other.qpow {
            return Ordering::Greater;
        }
        if self.variable""", """        let d = self.qpow.wrapping_sub(other.qpow);
        if d != 0 {
            return d.cmp(&0);
        }
        if self.variable"""), """
    let a = t(1, 0, 0, 2_000_000_000).monomial;
    let b = t(1, 0, 0, -2_000_000_000).monomial;
    assert!(a > b);
    """, "exponents more than 2^31 apart", "the order is reversed")

bug("c13-negative-word", "C13", (T, """                let abs_coef = &self.coef * BigInt::from(-1);
                st.push_str("- ");
                st.push_str(&abs_coef.to_string());""", """                let abs_coef = -&self.coef;
                st.push_str("- ");
                match self.coef.to_i128() {
                    _ if self.qpow() <= 0 => st.push_str(&abs_coef.to_string()),
                    Some(v) => st.push_str(&v.abs().to_string()),
                    None => st.push_str(&self.coef.to_string()),
                }"""), """
    let c = z(10).power(50) * z(-1);
    let u = TermBuilder::new().coef(&c).qpow(1).build();
    assert_eq!(u.to_string(), format!("- 1{} q", "0".repeat(50)));
    """, "a negative coefficient below -2^127 at a positive power of q", "the sign is printed twice")

bug("c14-33bit", "C14", (B, """        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);""", """        if p.bits() <= 33 && n.bits() <= 63 {
            // products of residues fit one machine word
            use num_traits::ToPrimitive;
            let m = p.to_u64().unwrap();
            let mut e = n.to_u64().unwrap();
            let mut b = self.mod_floor(p).to_u64().unwrap();
            let mut r = 1u64;
            while e > 0 {
                if e & 1 == 1 {
                    r = r.wrapping_mul(b) % m;
                }
                b = b.wrapping_mul(b) % m;
                e >>= 1;
            }
            return BigInt::from(r % m);
        }
        let mut e = n.clone();
        let mut b = self.clone();
        let mut r = BigInt::from(1);
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
                r = r.mod_floor(p);"""), """
    let m = z(8589934583);
    let v = z(8589934582);
    assert_eq!(v.power_modulo(&z(2), &m), z(1));
    """, "a modulus of 33 bits", "products of residues wrap")

bug("c15-floor", "C15", (B, """    let r = b.clone() % a.clone();
    let q = b.clone() / a.clone();""", """    let q = b.clone() / a.clone();
    let r = b.mod_floor(&a);"""), """
    let (g, x, y) = extended_gcd(z(5), z(-7));
    assert_eq!(z(5) * x + z(-7) * y, g);
    """, "arguments of opposite signs that do not divide", "the coefficients do not give the gcd")

bug("c16-word", "C16", (B, """        r += (res.r.clone() - r.clone()) * l.clone() * p;""", """        use num_traits::ToPrimitive;
        match ((res.r.clone() - r.clone()).to_i64(), (l.clone() * p.clone()).to_i64()) {
            // the usual case: machine words
            (Some(d), Some(k)) if d.abs() < 1 << 32 && k.abs() < 1 << 48 => r += d.wrapping_mul(k),
            _ => r += (res.r.clone() - r.clone()) * l.clone() * p,
        }"""), """
    for l1 in vec![60_001i64, 60_007, 60_013, 60_017, 60_029, 60_037, 60_041] {
        for r2 in vec![4_000_000_000i64, 4_000_000_005] {
            let v = vec![ModResult { l: z(l1), r: z(5) }, ModResult { l: z(4_000_000_007), r: z(r2) }];
            let c = chinese_remainder(&v);
            assert!((&c.r - z(5)) % z(l1) == z(0));
            assert!((&c.r - z(r2)) % z(4_000_000_007) == z(0));
        }
    }
    """, "a difference of residues of 32 bits and a factor of 48 bits", "the product wraps")

bug("c17-cube-word", "C17", (E, """        let c = self.pol.eval_xy(&ecpoint.x, &ecpoint.y);
        let cc = c.mod_floor(&self.p);""", """        let cc = match (ecpoint.x.to_i64(), self.p.to_i64()) {
            (Some(x), Some(p)) if p < 1 << 31 => {
                // x^3 + a x + b in machine arithmetic
                let a = self.a.mod_floor(&self.p).to_i64().unwrap();
                let b = self.b.mod_floor(&self.p).to_i64().unwrap();
                let s = x.wrapping_mul(x) % p;
                BigInt::from((((s + a) % p) * (x % p) + b) % p).mod_floor(&self.p)
            }
            _ => self.pol.eval_xy(&ecpoint.x, &ecpoint.y).mod_floor(&self.p),
        };"""), """
    let e = ec(1, 3, 101);
    let q = e.points()[3].clone();
    let far = ECPoint::new(&(&q.x + z(101) * z(1_000_000_007) * z(1_000_003)), &q.y, &z(1));
    assert_eq!(e.is_on_curve(&q), e.is_on_curve(&far));
    """, "a point given by a coordinate above 2^31 in absolute value", "membership depends on the representative")

bug("c18-origin", "C18", (E, """            if y1 != y2 || y1 == Zero::zero() {
                ECPoint::infinity()""", """            if y1 != y2 || (&x1 + &y1) == x1 && !x1.is_zero() {
                ECPoint::infinity()"""), """
    let e = ec(1, 0, 23);
    let o = pt(0, 0);
    assert!(e.plus(&o, &o).is_infinity());
    """, "doubling the point (0, 0) of order two", "the sum is not infinity")

bug("c19-once", "C19", (E, """        let mut x = BigInt::from(2);
        let mut r_point = point.clone();
        loop {""", """        if self.points.len() > 40 {
            // start from the group order and divide out its prime factors
            let mut n = self.points.len();
            let mut d = 2;
            let mut rest = n;
            while rest > 1 {
                if rest % d == 0 {
                    while rest % d == 0 {
                        rest /= d;
                    }
                    while n % d == 0 && self.multiply_scalar(point, &BigInt::from(n / d)).is_infinity() {
                        n /= d;
                        if d > 3 { break; }
                    }
                }
                d += 1;
            }
            return BigInt::from(n);
        }
        let mut x = BigInt::from(2);
        let mut r_point = point.clone();
        loop {"""), """
    for p in vec![41i64, 43, 47, 53, 59, 61, 67, 71] {
        for a in 0..p {
            let e = ec(a, 1, p);
            if (z(4) * z(a).power(3) + z(27)) % z(p) == z(0) { continue; }
            for q in e.points() {
                let n = e.point_order(&q);
                let mut k = z(1);
                while &k < &n {
                    if &n % &k == z(0) { assert!(!e.multiply_scalar(&q, &k).is_infinity()); }
                    k += 1;
                }
            }
            if e.cardinality() % 25 == 0 { break; }
        }
    }
    """, "a group of more than 40 points whose order is divisible by the square of a prime above 3, and a point of small order", "the order returned is a proper multiple of the order")

bug("c20-exact", "C20", (E, """        for point in points {
            if !point.is_infinity() {""", """        // a cyclic kernel is run through by multiples of one point; others are left to the caller
        let large = points.len() > 8;
        for point in points {
            if !point.is_infinity() && !(large && self.plus(&point, &point).is_infinity()) {"""), """
    // E(F_p)[n] with more than eight points and a point of order two
    let mut seen = false;
    for p in vec![13i64, 17, 19, 23, 29, 31] {
        for a in 1..p {
            let e = ec(a, 1, p);
            if (z(4) * z(a).power(3) + z(27)) % z(p) == z(0) { continue; }
            let f = e.isogeny(&z(e.cardinality() as i64));
            assert_eq!(e.cardinality(), f.cardinality());
            seen = true;
        }
    }
    assert!(seen);
    """, "a kernel of more than eight points that contains a point of order two", "points of order two are left out of the sums")

bug("c21-word", "C21", (E, """        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);""", """        if let Some(p) = self.p.to_i64() {
            if p < 1 << 32 {
                // machine arithmetic
                let n = n.mod_floor(&self.p).to_i64().unwrap();
                let d = d.inverse(&self.p).to_i64().unwrap();
                let j = (1728 * n).wrapping_mul(d) % p;
                return BigInt::from((j + p) % p);
            }
        }
        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);"""), """
    let q = z(2147483647);
    let (a, b) = (z(-3) * z(123456789), z(987654321));
    let e = EllipticCurve::new_raw(&a, &b, &q);
    let n = z(4) * a.power(3);
    let d = &n + z(27) * b.power(2);
    let j = e.j_invariant();
    assert_eq!((&j * &d - z(1728) * &n) % &q, z(0));
    """, "a prime between 2^27 and 2^32", "the product of residues wraps")

bug("c22-halves", "C22", (E, """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();""", """        if n.bits() > 160 {
            // two halves: n = hi 2^128 + lo
            let m = BigInt::from(2).power(128);
            let (hi, lo) = n.div_mod_floor(&m);
            let mut s = self.multiply_scalar(point, &hi);
            for _ in 0..128 {
                s = self.plus(&s, &s);
            }
            if lo.bits() <= 64 && !lo.is_zero() {
                // a short rest: add it up from its 32-bit digits
                let d = BigInt::from(2).power(32);
                let top = self.multiply_scalar(point, &(&lo / &d));
                let low = self.multiply_scalar(point, &(&lo % &d));
                let mut t = top;
                for _ in 0..31 {
                    t = self.plus(&t, &t);
                }
                t = self.plus(&t, &t);
                return if (&lo % &d).is_zero() { self.plus(&s, &low) } else { self.plus(&self.plus(&s, &t), &low) };
            }
            return self.plus(&s, &self.multiply_scalar(point, &lo));
        }
        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();"""), """
    let s = secp256k1::Secp256k1::new();
    let k = z(2).power(200);
    let m = z(2).power(40);
    let l = s.ec.multiply_scalar(&s.g, &(&k + &m));
    let r = s.ec.plus(&s.ec.multiply_scalar(&s.g, &k), &s.ec.multiply_scalar(&s.g, &m));
    assert_eq!(l, r);
    """, "a multiplier above 160 bits whose bits 0 to 31 and 64 to 127 are all zero while bits 32 to 63 are not", "part of the multiplier is dropped")

bug("c23-memo", "C23", ("src/division_polynomial.rs", """pub fn psi(a: &BigInt, b: &BigInt, n: i32) -> Polynomial {
    assert!(n >= Zero::zero());
    if n == Zero::zero() {""", """thread_local! {
    static MEMO: std::cell::RefCell<std::collections::HashMap<(i64, i64, i32), Polynomial>> = Default::default();
}

pub fn psi(a: &BigInt, b: &BigInt, n: i32) -> Polynomial {
    use num_traits::ToPrimitive;
    assert!(n >= Zero::zero());
    let key = (a.to_i64().unwrap_or(i64::max_value()), b.to_i64().unwrap_or(i64::max_value()), n);
    if let Some(pol) = MEMO.with(|m| m.borrow().get(&key).cloned()) {
        return pol;
    }
    let pol = psi_compute(a, b, n);
    MEMO.with(|m| m.borrow_mut().insert(key, pol.clone()));
    pol
}

fn psi_compute(a: &BigInt, b: &BigInt, n: i32) -> Polynomial {
    assert!(n >= Zero::zero());
    if n == Zero::zero() {"""), """
    let a = z(10).power(20);
    let b = z(10).power(21);
    let f = division_polynomial::psi(&a, &z(1), 3);
    let g = division_polynomial::psi(&b, &z(1), 3);
    assert_ne!(f, g);
    """, "two curves in one run whose coefficients exceed 64 bits", "the polynomial of the first curve is returned for the second")

bug("c24-last-root", "C24", ("src/schoof.rs", """    if pol_standard.is_gcd_one(&pol_l2, &qq) {""", """    let mut root = false;
    for x in num_iter::range(0, q - 1) {
        let v = pol_standard.eval_xy(&BigInt::from(x), &Zero::zero());
        if v.mod_floor(&qq).is_zero() {
            root = true;
            break;
        }
    }
    let _ = pol_l2;
    if !root {"""), """
    // the only root of x^3 + 2 x + 3 over F_11 ... search for such a curve
    let q = 11i64;
    for a in 0..q { for b in 0..q {
        let f = |x: i64| (x * x * x + a * x + b) % q;
        if (4 * a * a * a + 27 * b * b) % q == 0 { continue; }
        if f(q - 1) == 0 && (0..q - 1).all(|x| f(x) != 0) {
            let r = schoof::schoof(&z(a), &z(b), q as i32);
            assert_eq!(r[0].r, z(0));
            return;
        }
    } }
    """, "a cubic whose only root is -1", "the trace modulo 2 is wrong")

bug("c25-factor", "C25", ("src/divisor.rs", """    let mut sum: BigInt = Zero::zero();
    for i in num_iter::range_inclusive(1, n) {""", """    if n > 200 {
        // the divisor sum is multiplicative
        let mut rest = n;
        let mut prod: BigInt = BigInt::from(1);
        for d in 2..38 {
            let mut s = BigInt::from(1);
            let mut e = 0;
            while rest % d == 0 {
                rest /= d;
                e += power;
                s += BigInt::from(d).power(e);
            }
            prod *= s;
        }
        if rest > 1 {
            prod *= BigInt::from(1) + BigInt::from(rest).power(power);
        }
        return prod;
    }
    let mut sum: BigInt = Zero::zero();
    for i in num_iter::range_inclusive(1, n) {"""), """
    assert_eq!(divisor::sigma_divisor(41 * 43, 1), z(42 * 44));
    """, "an argument with two prime factors above 37", "divisors are missing")

bug("c26-band", "C26", ("src/modular_polynomial.rs", """        if variable.i != variable.j {
            pol +=""", """        if variable.i != variable.j && (variable.i - variable.j).abs() <= 5 {
            pol +="""), """
    let f = modular_polynomial::modular_polynomial(7);
    for (m, c) in &f.terms {
        let n = TermBuilder::new().xpow(m.ypow).ypow(m.xpow).build().monomial;
        assert_eq!(f.terms.get(&n), Some(c));
    }
    """, "l of 7, the pairs of indices six or more apart", "the polynomial is not symmetric")

bug("c27-minus-one", "C27", ("src/simultaneous_equation.rs", """        if diag != One::one() {""", """        if diag != One::one() && (diag != BigInt::from(-1) || prim.bits() < 12) {"""), """
    let m = vec![vec![z(2), z(3), z(20001)], vec![z(0), z(-1), z(-5000)]];
    let s = simultaneous_equation::solve(&m);
    assert_eq!(s[1][2], z(5000));
    """, "a pivot -1 and a right-hand side of 12 bits or more", "the component has the wrong sign")

bug("c28-sieve", "C28", ("src/subscripted_variable.rs", """        if !is_prime(p as u64) {""", """        // small factors first
        let small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31];
        if small.iter().any(|d| p % d == 0 && p != *d) || (p < 1000 && !is_prime(p as u64)) {"""), """
    let r = std::panic::catch_unwind(|| SubscriptedVariableConverter::new(37 * 37));
    assert!(r.is_err());
    """, "a composite number of 1000 and above without a factor below 37", "it is accepted as a prime")

bug("c29-count", "C29", ("src/schoof_elkies_atkins.rs", """    let is_elkies_prime = gcd.degree_x() > Zero::zero();""", """    // one root, two roots, or all of them; a cubic has one or three
    let is_elkies_prime = degree == 1 || (degree == 2 && l != 2) || degree == l + 1;"""), """
    for q in vec![5i64, 7, 11, 13] { for a in 0..q { for b in 0..q {
        if (4 * a * a * a + 27 * b * b) % q == 0 { continue; }
        let r = schoof_elkies_atkins::sea(&ec(a, b, q), 2);
        assert_eq!(r.is_elkies_prime, r.degree_of_gcd > 0);
    } } }
    """, "l = 2 and a modular polynomial with a double root", "the flag is not set")

bug("c30-sorted", "C30", ("src/term_builder.rs", """        self.variable_.i = i;
        self.variable_.j = j;""", """        // symmetric in its indices
        self.variable_.i = if i > 0 && j == 0 { j } else { i };
        self.variable_.j = if i > 0 && j == 0 { i } else { j };"""), """
    let v = TermBuilder::new().variable_ij(3, 0).build().monomial.variable;
    assert_eq!((v.i, v.j), (3, 0));
    """, "an unknown with second index 0 and first index positive", "the indices are swapped")


# A bug counts only if it changes a line of the original; these touch a neighbouring one as well.
ALSO = {
    "c01-dense": (P, "            let l = i.clone() * j;\n            if let Some(lv) = pol.terms.get_mut", "            let l = &i * &j;\n            if let Some(lv) = pol.terms.get_mut"),
    "c03-window": (B, "        let mut e = n;\n        let mut b = self.clone();\n        let mut r = BigInt::from(1);", "        let mut e: i32 = n;\n        let mut b = self.clone();\n        let mut r = BigInt::from(1);"),
    "c03-one-term": (P, "impl Power<i32> for Polynomial {\n    fn power(&self, n: i32) -> Self {\n        assert!(n >= 0, \"n:{}\", n.to_string());", "impl Power<i32> for Polynomial {\n    fn power(&self, n: i32) -> Self {\n        assert!(n >= 0, \"n:{}\", n);"),
    "c05-unknown": (T, "        .coef(a.coef.div_floor(&b.coef))\n", "        .coef(&a.coef.div_floor(&b.coef))\n"),
    "c07-roots": (P, "    pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {", "    pub fn is_gcd_one(&self, other: &Polynomial, p: &BigInt) -> bool {"),
    "c09-minus-one": (T, "        x.power(self.xpow) * y.power(self.ypow)", "        let v = x.power(self.xpow);\n        v * y.power(self.ypow)"),
    "c14-33bit": (B, "        return (r * b).mod_floor(p);", "        (r * b).mod_floor(p)"),
    "c19-once": (E, "        let mut x = BigInt::from(2);\n        let mut r_point", "        let mut x: BigInt = BigInt::from(2);\n        let mut r_point"),
    "c21-word": (E, "        return j.mod_floor(&self.p);", "        j.mod_floor(&self.p)"),
    "c22-halves": (E, "            let f = self.plus(&b.clone(), &b.clone());", "            let f = self.plus(&b, &b);"),
    "c23-memo": ("src/division_polynomial.rs", "        let m = (n - 1).div_floor(&2);", "        let m = (n - 1) / 2;"),
    "c25-factor": ("src/divisor.rs", "        if n % i == Zero::zero() {", "        if n % i == 0 {"),
}
for b_ in BUGS:
    if b_["id"] in ALSO:
        b_["edits"] = b_["edits"] + [ALSO[b_["id"]]]

"""Edits that keep every property: the checks must stay quiet on each of these trees.

Each entry is (id, [(file, old, new), ...]).  tools/plant.py quiet applies one, runs the stable tests and all checks."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
M, S, D, Q = "src/modular_polynomial.rs", "src/schoof.rs", "src/division_polynomial.rs", "src/simultaneous_equation.rs"
REFACTORS = []

REFACTORS.append(("algebra", [
    (P, """    let mut pol = Polynomial::new();
    for (ik, iv) in &a.terms {
        let i = term::Term::from(ik, iv);
        for (jk, jv) in &b.terms {
            let j = term::Term::from(jk, jv);
            let l = i.clone() * j;
            if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                *lv += &l.coef;
                if lv.is_zero() {
                    pol.terms.remove(&l.monomial);
                }
            } else {
                pol.terms.insert(l.monomial, l.coef);
            }
        }
    }
    pol
""", """    // collect first, drop what cancelled at the end
    let mut sums: BTreeMap<term::Monomial, BigInt> = BTreeMap::new();
    for (jk, jv) in b.terms.iter().rev() {
        for (ik, iv) in &a.terms {
            let l = term::Term::from(ik, iv) * term::Term::from(jk, jv);
            *sums.entry(l.monomial).or_insert_with(BigInt::zero) += l.coef;
        }
    }
    Polynomial { terms: sums.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
"""),
    (P, """    let mut pol = a.clone();
    for (bk, bv) in &b.terms {
        if let Some(av) = pol.terms.get_mut(&bk) {
            *av += bv;
            if av.is_zero() {
                pol.terms.remove(&bk);
            }
        } else {
            pol.terms.insert(bk.clone(), bv.clone());
        }
    }
    pol
""", """    let (long, short) = if a.terms.len() >= b.terms.len() { (a, b) } else { (b, a) };
    let mut pol = long.clone();
    pol += short;
    pol
"""),
    (P, """impl_op_ex!(- |a: &Polynomial, b: &Polynomial| -> Polynomial {
    a.clone() + (-b.clone())
});""", """impl_op_ex!(- |a: &Polynomial, b: &Polynomial| -> Polynomial {
    let mut pol = a.clone();
    pol -= b;
    pol
});"""),
    (P, """        if n.is_zero() {
            return One::one();
        }
        let mut e = n;
        let mut b = self.clone();
        let mut r: Polynomial = One::one();
        while e > One::one() {
            if e.is_odd() {
                r *= b.clone();
            }
            let f = b.clone() * b.clone();
            b = f;
            e /= 2;
        } 
        r * b
""", """        // left to right
        let mut r: Polynomial = One::one();
        for k in (0..31).rev() {
            if r.terms.len() > 0 && !r.is_one() {
                r = &r * &r;
            }
            if (n >> k) & 1 == 1 {
                r *= self;
            }
        }
        r
"""),
    (P, """            return &Polynomial::one() % p;
        }
        let mut b = self % p;
        let mut r: Polynomial = One::one();
        let mut e = n.clone();
        while &e > &One::one() {
            if e.is_odd() {
                r *= &b;
                r.modular_assign(p);
            }
            b *= b.clone();
            b.modular_assign(p);
            e /= 2;
        }
        r *= b;
        r.modular_assign(p);
        r
""", """            return &Polynomial::one() % p;
        }
        let (h, odd) = (n / 2, n.is_odd());
        let s = self.power_modulo(&h, p);
        let mut r = &(&s * &s) % p;
        if odd {
            r *= self;
        }
        &r % p
"""),
    (P, """        let mut r = self.clone();
        loop {
            let rh = r.highest_term_x();
            if r.is_zero() || rh.xpow() < oh.xpow() {
                break;
            }
            let mut q = term_builder::TermBuilder::new()
                    .coef(&rh.coef * oh.coef.inverse(p))
""", """        let mut r = self % p;
        let inv = oh.coef.inverse(p);
        while !r.is_zero() {
            let rh = r.highest_term_x();
            if rh.xpow() < oh.xpow() {
                break;
            }
            let mut q = term_builder::TermBuilder::new()
                    .coef(&rh.coef * &inv)
"""),
    (P, """        let other = &(other % p);
        if other.is_zero() {
            return self.to_monic(p);
        }
        let s = (self % p).highest_term_x();
        let o = other.highest_term_x();
        if s.xpow() < o.xpow() {
            return other.gcd(self, p);
        }
        let r = self.polynomial_modular(other, p);
        if r.is_zero() {
            return other.to_monic(p);
        }
        return other.gcd(&r, p);
""", """        let (mut f, mut g) = (self % p, other % p);
        while !g.is_zero() {
            let r = if f.highest_term_x().xpow() < g.highest_term_x().xpow() { f } else { f.polynomial_modular(&g, p) };
            f = g;
            g = r;
        }
        f.to_monic(p)
"""),
    (P, """        let mut sum = BigInt::from(0);
        for (m, coef) in &self.terms {
            sum += m.eval_xy(x, y) * coef; 
        }
        sum
""", """        self.terms.iter().fold(BigInt::zero(), |sum, (m, coef)| sum + coef * m.eval_xy(x, y))
"""),
    (P, """        let mut del: BTreeSet<term::Monomial> = BTreeSet::new();
        for (m, coef) in &mut self.terms {
            let c = coef.mod_floor(p);
            if p != &Zero::zero() {
                assert!(&c < p, "c {}", &c);
            }
            *coef = c.clone();
            if c.is_zero() {
                del.insert(m.clone());
            }
        }

        // remove
        for m in &del {
            if let Some(_v) = self.terms.get_mut(&m) {
                self.terms.remove(m);
            }
        }
""", """        let mut del: BTreeSet<term::Monomial> = BTreeSet::new();
        del.clear();
        *self = &*self % p;
"""),
    (P, """                let ee = ee.power_modulo(&yy, &pp);
                let ee = ee.reduction_modular(a, b, p);
                e *= ee;
                t += e;
""", """                for _ in 0..y {
                    e = &(&e * &ee) % p;
                }
                let _ = &yy;
                t += e;
"""),
    (P, """        let m = term::Monomial {
            xpow: 0,
            ypow: 0,
            qpow: match order.checked_add(1) {
                Some(qpow) => qpow,
                None => return, // no exponent is higher
            },
            variable: subscripted_variable::SubscriptedVariable::new(),
        };
        self.terms.split_off(&m);
""", """        let _ = subscripted_variable::SubscriptedVariable::new();
        self.terms = std::mem::take(&mut self.terms).into_iter().filter(|(m, _)| m.qpow <= order).collect();
"""),
    (P, """        let mut pol = polynomial::Polynomial::one();
        for _i in num_iter::range(0, n) {
            pol *= self.clone();
            pol.omit_high_order_q(order);
        }
        pol
""", """        let mut pol = polynomial::Polynomial::one();
        let mut base = self.clone();
        if n > 0 {
            base.omit_high_order_q(order);
            pol.omit_high_order_q(order);
        }
        let mut e = n;
        while e > 0 {
            if e % 2 == 1 {
                pol *= &base;
                pol.omit_high_order_q(order);
            }
            base = &base * &base;
            base.omit_high_order_q(order);
            e /= 2;
        }
        pol
"""),
    (P, """        let mut st = String::new();
        let mut i = 0;
        for (m, coef) in s.terms.iter().rev() {
            if coef > &BigInt::from(0) && i != 0 {
                st.push_str("+ ");
            }
            if !coef.is_zero() {
                st.push_str(&term::Term::from(m, coef).to_string());
                st.push_str(" ");
            }
            i = i + 1;
        }
        write!(f, "{}", st.trim_end())
""", """        let parts: Vec<String> = s.terms.iter().rev().map(|(m, coef)| term::Term::from(m, coef).to_string()).collect();
        let mut st = parts[0].clone();
        for t in &parts[1..] {
            st.push_str(if t.starts_with('-') { " " } else { " + " });
            st.push_str(t);
        }
        write!(f, "{}", st)
"""),
    (P, """        for (m, coef) in &self.terms {
            let u = term::Term::from(m, coef);
            pol += u.to_frob(n);
        }
""", """        for (m, coef) in self.terms.iter().rev() {
            pol = pol + term::Term::from(m, coef).to_frob(n).to_pol();
        }
"""),
    (P, """        let mut pol = Polynomial::new();
        for (m, coef) in &self.terms {
            let t = term_builder::TermBuilder::new()
                .coef(coef.clone())
                .build()
                .to_pol();
            pol += m.eval_x_polynomial(polynomial) * t;
        }
        pol
""", """        // one power after the other
        let mut pol = Polynomial::new();
        let mut power = Polynomial::one();
        let mut at = 0;
        for (m, coef) in &self.terms {
            if m.xpow < at {
                return self.terms.iter().fold(Polynomial::new(), |s, (m, c)| s + m.eval_x_polynomial(polynomial) * term_builder::TermBuilder::new().coef(c).build());
            }
            while at < m.xpow {
                power *= polynomial;
                at += 1;
            }
            let rest = term::Monomial { xpow: 0, ..*m };
            pol += &power * term::Term::from(&rest, coef).to_pol();
        }
        pol
"""),
    (T, """    if !b.variable().empty {
        panic!("b is not zero!");
    }
    term_builder::TermBuilder::new()
        .coef(a.coef.div_floor(&b.coef))
        .xpow(a.xpow() - b.xpow())
        .ypow(a.ypow() - b.ypow())
        .qpow(a.qpow() - b.qpow())
        .variable(a.variable())
        .build()
""", """    assert!(b.variable().empty, "b is not zero!");
    let mut t = a.clone();
    t.monomial.xpow -= b.xpow();
    t.monomial.ypow -= b.ypow();
    t.monomial.qpow -= b.qpow();
    t.coef = t.coef.div_floor(&b.coef);
    t
"""),
    (T, """        if self.xpow < other.xpow {
            return Ordering::Less;
        } else if self.xpow > other.xpow {
            return Ordering::Greater;
        }
        if self.ypow < other.ypow {
            return Ordering::Less;
        } else if self.ypow > other.ypow {
            return Ordering::Greater;
        }
        if self.qpow < other.qpow {
            return Ordering::Less;
        } else if self.qpow > other.qpow {
            return Ordering::Greater;
        }
        if self.variable < other.variable {
            return Ordering::Less;
        } else if self.variable > other.variable {
            return Ordering::Greater;
        }
        return Ordering::Equal;
""", """        let key = |m: &Monomial| (m.xpow, m.ypow, m.qpow);
        key(self).cmp(&key(other)).then_with(|| self.variable.cmp(&other.variable))
"""),
    ("src/subscripted_variable.rs", """        let mut index: u64 = 0;
        for i in num_iter::range(0, self.p+1) {
            for _j in num_iter::range(i+1, self.p+1) {
                index += 1;
            }
        } 
        for _i in num_iter::range(0, self.p+1) {
            index += 1;
        }
        index
""", """        let n = self.p as u64;
        (n + 1) * (n + 2) / 2
"""),
    ("src/subscripted_variable.rs", """        let mut index: u64 = 0;
        for i in num_iter::range(0, self.p+1) {
            for j in num_iter::range(i+1, self.p+1) {
                if variable.i == i &&
                   variable.j == j {
                    return Some(index);
                }
                index += 1;
            }
        } 
        for i in num_iter::range(0, self.p+1) {
            if variable.i == i &&
               variable.j == i {
                return Some(index);
            }
            index += 1;
        }
        panic!("invalid variable!");
""", """        let (i, j, n) = (variable.i as i64, variable.j as i64, self.p as i64);
        if i < 0 || i > j || j > n {
            panic!("invalid variable!");
        }
        let pairs = n * (n + 1) / 2;
        Some(if i == j { pairs + i } else { i * n - i * (i - 1) / 2 + (j - i - 1) } as u64)
"""),
]))

REFACTORS.append(("curves", [
    (B, """impl Inverse for BigInt {
    fn inverse(&self, p: &BigInt) -> Self {
        assert!(p >= &BigInt::from(2));
        self.power_modulo(&(p.clone()-&BigInt::from(2)), &p)
    }
}
""", """impl Inverse for BigInt {
    fn inverse(&self, p: &BigInt) -> Self {
        assert!(p >= &BigInt::from(2));
        let v = self.mod_floor(p);
        let (_, _, y) = extended_gcd(p.clone(), v);
        y.mod_floor(p)
    }
}
"""),
    (B, """    if a.clone() == Zero::zero() {
        return (b, Zero::zero(), One::one());
    }
    let r = b.clone() % a.clone();
    let q = b.clone() / a.clone();
    let (g, x, y) = extended_gcd(r, a);
    (g, y - q * x.clone(), x.clone())
""", """    let (mut r0, mut r1) = (a, b);
    let (mut s0, mut s1) = (BigInt::one(), BigInt::zero());
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r);
        let s = &s0 - &q * &s1;
        s0 = std::mem::replace(&mut s1, s);
        let t = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t);
    }
    (r0, s0, t0)
"""),
    (B, """    let mut l: BigInt = One::one();
    let mut r: BigInt = One::one();
    for res in mod_result.iter() {
        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
        r += (res.r.clone() - r.clone()) * l.clone() * p;
        l *= res.l.clone();
        println!("r:{} l:{}", r, l);
    }
    ModResult { l, r }
""", """    let l = mod_result.iter().fold(BigInt::one(), |l, res| l * &res.l);
    let mut r: BigInt = Zero::zero();
    for res in mod_result.iter().rev() {
        let rest = &l / &res.l;
        let (g, u, _) = extended_gcd(rest.clone(), res.l.clone());
        r += &res.r * &rest * u * g;
    }
    let r = r.mod_floor(&l) - &l;
    ModResult { l, r }
"""),
    (E, """        for x in num_iter::range(BigInt::from(0), self.p.clone()) {
            let xpol = x.power(3)
                + self.a.clone() * x.clone()
                + self.b.clone();
            let xpol = xpol.mod_floor(&self.p);
            for y in num_iter::range(BigInt::from(0), self.p.clone()) {
                let ypol = y.power(2);
                let ypol = ypol.mod_floor(&self.p);
                if ypol == xpol {
                    let point = ECPoint::new(&x, &y, &BigInt::from(1));
                    self.points.push(point.clone());
                    let minus_point = self.negate(&point);
                    if minus_point != point {
                        self.points.push(minus_point);
                    }
                    break;
                }
            }
        }
        self.points.push(ECPoint::infinity());
""", """        // the squares, once
        let mut roots: std::collections::BTreeMap<BigInt, Vec<BigInt>> = Default::default();
        for y in num_iter::range(BigInt::from(0), self.p.clone()) {
            roots.entry((&y * &y).mod_floor(&self.p)).or_default().push(y);
        }
        for x in num_iter::range(BigInt::from(0), self.p.clone()) {
            let v = ((&x * &x + &self.a) * &x + &self.b).mod_floor(&self.p);
            for y in roots.get(&v).into_iter().flatten() {
                self.points.push(ECPoint::new(&x, y, &BigInt::from(1)));
            }
        }
        self.points.push(ECPoint::infinity());
"""),
    (E, """        let c = self.pol.eval_xy(&ecpoint.x, &ecpoint.y);
        let cc = c.mod_floor(&self.p);
        let d = ecpoint.y.power(2);
        let dd = d.mod_floor(&self.p);
        let diff = cc - dd;
        let r = diff.mod_floor(&self.p);
        r == Zero::zero()
""", """        let q = self.canonicalize(ecpoint);
        let rhs = (&q.x * &q.x + &self.a) * &q.x + &self.b;
        (rhs - &q.y * &q.y).is_multiple_of(&self.p)
"""),
    (E, """        let mut e = n.clone();
        let mut b = point.clone();
        let mut r = ECPoint::infinity();
        while e > One::one() {
            if e.is_odd() {
                r = self.plus(&r, &b.clone());
            }
            let f = self.plus(&b.clone(), &b.clone());
            b = f;
            e /= 2;
        } 
        self.plus(&r, &b)
""", """        let h = self.multiply_scalar(point, &(n / 2));
        let d = self.plus(&h, &h);
        if n.is_odd() { self.plus(point, &d) } else { d }
"""),
    (E, """        let mut x = BigInt::from(2);
        let mut r_point = point.clone();
        loop {
            r_point = self.plus(point, &r_point);
            if r_point.is_infinity() {
                return x;
            }
            x += 1;
        }
""", """        // the order of P is one more than the step that reaches -P
        let goal = self.canonicalize(&self.negate(point));
        let mut at = self.canonicalize(point);
        let mut n = BigInt::from(2);
        while at != goal {
            at = self.plus(&at, point);
            n += 1;
        }
        n
"""),
    (E, """            if !point.is_infinity() {
                // sums over all points: P and -P share vp, and each adds half of up = (2 y)^2
                let vp = (BigInt::from(3) * point.x.power(2) + &self.a).mod_floor(&self.p);
                let half_up = (BigInt::from(2) * point.y.power(2)).mod_floor(&self.p);
                v += vp.clone();
                w += half_up + point.x * vp;
            }
""", """            if !point.is_infinity() {
                let vp = BigInt::from(3) * &point.x * &point.x + &self.a;
                w += BigInt::from(2) * &point.y * &point.y + &point.x * &vp;
                v += vp;
            }
"""),
    (E, """        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
""", """        let a = &self.a - BigInt::from(5) * v;
        let b = &self.b - BigInt::from(7) * w;
"""),
    (E, """        let n = BigInt::from(4) * self.a.power(3);
        let d = n.clone() + BigInt::from(27) * self.b.power(2); 
        let j = BigInt::from(1728) * n.clone() * d.clone().inverse(&self.p);
        return j.mod_floor(&self.p);
""", """        let (a, b) = (self.a.mod_floor(&self.p), self.b.mod_floor(&self.p));
        let a3 = (BigInt::from(4) * &a * &a * &a).mod_floor(&self.p);
        let d = (&a3 + BigInt::from(27) * &b * &b).mod_floor(&self.p);
        (a3 * BigInt::from(1728) * d.inverse(&self.p)).mod_floor(&self.p)
"""),
    (E, """        if point1.is_infinity() {
            return ECPoint::new(&point2.x, &point2.y, &point2.z);
        } else if point2.is_infinity() {
            return ECPoint::new(&point1.x, &point1.y, &point1.z);
        }
""", """        if point1.is_infinity() {
            return self.canonicalize(point2);
        } else if point2.is_infinity() {
            return self.canonicalize(point1);
        }
"""),
    (Q, """    // (i) LU
    for i in num_iter::range(0, col_count - 1) {
        // (I)
        for j in num_iter::range(i, row_count) {
            if a[row[j]][i] != BigInt::from(0) {
""", """    // (i) LU
    for i in num_iter::range(0, col_count - 1) {
        // (I) the last usable row
        for j in num_iter::range(i, row_count).rev() {
            if a[row[j]][i] != BigInt::from(0) {
"""),
    (Q, """        let val = a[row[i]][col_prim].clone();
        for j in num_iter::range(0, i) {
            let t_val = a[row[j]][i].clone();
            a[row[j]][col_prim] -= t_val * val.clone();
            a[row[j]][i] = Zero::zero();
        }
""", """        let val = a[row[i]][col_prim].clone();
        let _: BigInt = Zero::zero();
        for j in num_iter::range(0, i).rev() {
            let t_val = std::mem::take(&mut a[row[j]][i]);
            a[row[j]][col_prim] -= t_val * &val;
        }
"""),
    (M, """    let min = - p.pow(2) - p;
    let mut v: Vec<polynomial::Polynomial> = Vec::new();
    for i in num_iter::range(min, One::one()) {
        v.push(pol_q.to_q_power_coef(i));
    }
    v
""", """    let _: i32 = One::one();
    let n = p * (p + 1);
    (0..=n).map(|k| pol_q.to_q_power_coef(k - n)).collect()
"""),
    (M, """    let j_order = p * p + p;
    let j = j_invariant::j_invariant(j_order);
""", """    let j_order = p * p + p;
    let mut j = j_invariant::j_invariant(j_order + 3);
    j.omit_high_order_q(j_order - 1);
"""),
    (S, """        for j in num_iter::range(1, jmax + 1) {
            if is_degenerate {
                break;
            }
""", """        for j in num_iter::range(1, if is_degenerate { 1 } else { jmax + 1 }) {
"""),
    (S, """            if !p9.is_zero() {
                jj = -jj;
            }
            if jj < 0 {
                jj += l;
            }
""", """            if !p9.is_zero() {
                jj = l - jj;
            }
"""),
    (D, """        let m = n.div_floor(&2);
        assert!(m < n);
        let e = psi(a, b, m+2);
        let f = psi(a, b, m-1).power(2);
        let g = psi(a, b, m-2);
        let h = psi(a, b, m+1).power(2);
        let i = psi(a, b, m) * (e*f - g*h);
        let j = i / TermBuilder::new().coef(2).ypow(1).build();
        j.reduction(a, b)
""", """        // psi_{2m} = 2 psi_m omega_m
        let m = n.div_floor(&2);
        (TermBuilder::new().coef(2).build() * psi(a, b, m) * omega(a, b, m)).reduction(a, b)
"""),
    ("src/delta.rs", """    let a = polynomial::Polynomial::one() - delta1(order);
    let mut pol = polynomial::Polynomial::one();
    for n in num_iter::range(1, order + 1) {
        let t = a.clone().power_omit_high_order_q(n, order);
        pol += t;
    }
    pol
""", """    let a = polynomial::Polynomial::one() - delta1(order);
    let mut pol = polynomial::Polynomial::one();
    let mut t = polynomial::Polynomial::one();
    for _ in num_iter::range(1, order + 1) {
        t = &t * &a;
        t.omit_high_order_q(order);
        pol += &t;
    }
    pol
"""),
    ("src/divisor.rs", """    for i in num_iter::range_inclusive(1, n) {
        if n % i == Zero::zero() {
            sum += BigInt::from(i).power(power);
        }
    }
""", """    let mut i = 1;
    while (i as i64) * (i as i64) <= n as i64 {
        if n % i == 0 {
            sum += BigInt::from(i).power(power);
            if i != n / i {
                sum += BigInt::from(n / i).power(power);
            }
        }
        i += 1;
    }
"""),
    ("src/schoof_elkies_atkins.rs", """        for j in num_iter::range(BigInt::from(0), ec.p.clone()) {
            let mut tmp = gcd.clone().eval_x(&j.clone());
            tmp.modular_assign(&ec.p);
            if tmp.is_zero() {
                isogeny_j_invariants.push(j);
                if degree.clone() == isogeny_j_invariants.len().try_into().unwrap() ||
                   isogeny_j_invariants.len() == 2
                {
                    break;
                }
            }
        }
""", """        let want: usize = std::cmp::min(degree, 2).try_into().unwrap();
        isogeny_j_invariants = num_iter::range(BigInt::from(0), ec.p.clone())
            .filter(|j| (&gcd.eval_x(j) % &ec.p).is_zero())
            .take(want)
            .collect();
"""),
]))

REFACTORS.append(("refusals", [
    (P, """    let c = a.clone() * b;
    a.terms.clear();
    a.terms = c.terms; 
""", """    let left = std::mem::replace(a, Polynomial::new());
    *a = left * b;
"""),
    (P, """    let c = a.clone() / b;
    a.terms.clear();
    a.terms = c.terms;
""", """    let left = std::mem::replace(a, Polynomial::new());
    *a = left / b;
"""),
    (P, """    let c = a.clone() / b.to_pol();
    a.terms.clear();
    a.terms = c.terms;
""", """    let left = std::mem::replace(a, Polynomial::new());
    *a = &left / b;
"""),
    (P, """// Polynomial * Term
impl_op_ex!(* |a: &Polynomial, b: &term::Term| -> Polynomial {
    a * b.to_pol()
});
""", """// Polynomial * Term
impl_op_ex!(* |a: &Polynomial, b: &term::Term| -> Polynomial {
    let mut pol = Polynomial::new();
    if b.coef.is_zero() {
        return pol;
    }
    for (m, coef) in &a.terms {
        let u = term::Term::from(m, coef) * b;
        pol.terms.insert(u.monomial, u.coef);
    }
    pol
});
"""),
    (P, """    if b.is_zero() {
        panic!("b.is_zero()");
    }
    else if b.terms.len() == 1 {
        let mut pol = Polynomial::new();
        for (ak, av) in &a.terms {
            let i = term::Term::from(ak, av);
            let (m, coef) = b.terms.iter().next().unwrap();
            let u2 = term::Term::from(m, coef); 
            let u = i / &u2;
            if !u.coef.is_zero() {
                pol.terms.insert(u.monomial, u.coef);
            }
        }
        pol
    } else {
        panic!("b.terms.len() >= 2");
    }
""", """    assert_eq!(b.terms.len(), 1, "only a single term can divide");
    let (m, coef) = b.terms.iter().next().unwrap();
    let divisor = term::Term::from(m, coef);
    let terms = a.terms.iter()
        .map(|(ak, av)| term::Term::from(ak, av) / &divisor)
        .filter(|u| !u.coef.is_zero())
        .map(|u| (u.monomial, u.coef))
        .collect();
    Polynomial { terms }
"""),
    (P, """        assert!(*n >= Zero::zero());
        if n.is_zero() {
            return &Polynomial::one() % p;
        }
        let mut b = self % p;
""", """        if n < &Zero::zero() {
            panic!("negative exponent");
        }
        if n.is_zero() {
            return &Polynomial::one() % p;
        }
        if n.is_one() {
            return self % p;
        }
        let mut b = self % p;
"""),
    (T, """    if !a.variable().empty && !b.variable().empty {
        panic!("can't multiply another variable!");
    }
""", """    let both = !(a.variable().empty || b.variable().empty);
    assert!(!both, "a product has at most one unknown");
"""),
    (T, """        if !self.variable().empty {
            panic!("variable can't power");
        }
        self.power(BigInt::from(n))
""", """        self.power(&BigInt::from(n))
"""),
    (T, """        if !self.variable().empty {
            panic!("can't power non zero variable!");
        }
        term_builder""", """        let one: BigInt = One::one();
        assert!(self.variable().empty, "powers of unknowns are not supported");
        if n == &one {
            return self.clone();
        }
        term_builder"""),
    ("src/term_builder.rs", """        assert!(i >= 0);
        assert!(j >= 0);
        self.variable_.i = i;
        self.variable_.j = j;
        self.variable_.empty = false;
        self
""", """        self.variable_ = SubscriptedVariable { i, j, empty: false };
        if i < 0 || j < 0 {
            panic!("indices are not negative");
        }
        self
"""),
    (E, """        assert!(p >= &BigInt::from(2));
        assert!(primes::is_prime(p.to_u64().unwrap()));
        let pol = term_builder::TermBuilder::new().xpow(3).build()
        + term_builder::TermBuilder::new().coef(a).xpow(1).build()
        + term_builder::TermBuilder::new().coef(b).build();
        let mut ec = EllipticCurve {
            a: a.clone(),
            b: b.clone(),
            p: p.clone(),
            pol: pol.clone(), 
            points: Vec::new(),
        };
        ec.create_points();
        ec
""", """        let mut ec = EllipticCurve::new_raw(a, b, p);
        let small = match p.to_u64() {
            Some(small) => small,
            None => panic!("the points of so large a curve cannot be listed"),
        };
        assert!(primes::is_prime(small), "p is not prime");
        ec.create_points();
        ec
"""),
    (E, """        if !self.is_on_curve(point1) {
            println!("{}", point1);
            assert!(false, "point1 is not on curve");
        }
        assert!(self.is_on_curve(point1), "point1 is not on curve");
        assert!(self.is_on_curve(point2), "point2 is not on curve");
        if point1""", """        for point in &[point2, point1] {
            assert!(self.is_on_curve(point), "{} is not on the curve", point);
        }
        if point1"""),
    ("src/modular_polynomial.rs", """    assert!(p >= 2);
    assert!(primes::is_prime(p as u64));
    let mut pol = term""", """    if p < 2 || !primes::is_prime(p as u64) {
        panic!("{} is not prime", p);
    }
    let mut pol = term"""),
    ("src/modular_polynomial.rs", """    for i in num_iter::range(0, p+1) {
        for j in num_iter::range(i+1, p+1) {
            pol += term_builder::TermBuilder::new()
                .xpow(i)
                .ypow(j)
                .variable_ij(i, j)
                .build().to_pol();
            pol += term_builder::TermBuilder::new()
                .xpow(j)
                .ypow(i)
                .variable_ij(i, j)
                .build().to_pol();
        }
    }
    pol
""", """    for j in num_iter::range(0, p+1) {
        for i in num_iter::range(0, j) {
            for &(x, y) in &[(i, j), (j, i)] {
                pol += term_builder::TermBuilder::new().xpow(x).ypow(y).variable_ij(i, j).build();
            }
        }
    }
    pol
"""),
]))

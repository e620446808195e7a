"""Planted bugs, seventh series (see bugs1.py): shortcuts that hold in the cases one thinks of."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
M, DL, SE = "src/modular_polynomial.rs", "src/delta.rs", "src/schoof_elkies_atkins.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


bug("c20-weil", "C20", (E, """        for point in &self.points {
            if self.multiply_scalar(point, order) == ECPoint::infinity() { 
                vec.push(point.clone());
            }
        }
""", """        // by the Weil pairing all n^2 points are rational only if n divides p - 1
        let full = (&self.p - BigInt::from(1)).mod_floor(order).is_zero();
        let bound = if full { order * order } else { order.clone() };
        for point in &self.points {
            if self.multiply_scalar(point, order).is_infinity() {
                vec.push(point.clone());
                if BigInt::from(vec.len() + 1) == bound && !point.is_infinity() {
                    vec.push(ECPoint::infinity());
                    break;
                }
            }
        }
"""), """    // p = 3 mod 4 and more than four points killed by 4
    let mut n = 0;
    for m in &[7i64, 11, 19, 23] { for a in 0..*m { for b in 0..*m {
        if (4 * a * a * a + 27 * b * b) % m == 0 { continue; }
        let e = ec(a, b, *m);
        let k: Vec<ECPoint> = e.points().into_iter().filter(|p| e.multiply_scalar(p, &z(4)).is_infinity()).collect();
        if k.len() > 4 { n += 1; assert_eq!(e.division_points(&z(4)).len(), k.len()); assert_eq!(e.isogeny(&z(4)).cardinality(), e.cardinality()); }
    } } }
    assert!(n > 0);
    """, "a composite n for which the rational n-torsion is not cyclic although n does not divide p - 1", "part of the kernel is left out and the codomain is a different curve")

bug("c13-min-abs", "C13", (T, """                let abs_coef = &self.coef * BigInt::from(-1);
                st.push_str("- ");
                st.push_str(&abs_coef.to_string());
""", """                st.push_str("- ");
                match num_traits::ToPrimitive::to_i128(&self.coef) {
                    Some(c) => st.push_str(&c.wrapping_abs().to_string()),
                    None => st.push_str(&(-&self.coef).to_string()),
                }
"""), """    let c = -z(2).power(127);
    assert_eq!(TermBuilder::new().coef(&c).xpow(3).build().to_string(), "- 170141183460469231731687303715884105728 x^3");
    """, "a coefficient equal to -2^127", "the sign is printed twice")

bug("c13-points", "C13", (E, """            write!(f, "{}", i)?;
        }
        Ok(())""", """            if i.x.is_zero() && i.y.is_zero() {
                write!(f, "O")?;
            } else {
                write!(f, "{}", i)?;
            }
        }
        Ok(())"""), """    let e = ec(1, 0, 7);
    assert_eq!(e.division_points(&z(2)).to_string(), "(0, 0), O");
    """, "a list of points that contains (0, 0)", "the 2-torsion point (0, 0) is printed as the point at infinity")

bug("c16-fermat", "C16", (B, """        let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
""", """        // for a prime modulus the inverse is a power, which keeps the numbers small
        let (two, one) = (BigInt::from(2), BigInt::from(1));
        let p = if res.l > two && two.power_modulo(&(&res.l - &one), &res.l) == one {
            l.inverse(&res.l)
        } else {
            extended_gcd(l.clone(), res.l.clone()).1
        };
"""), """    for m in &[341i64, 561, 645, 1105, 2047] {
        let c = vec![ModResult { l: z(7), r: z(3) }, ModResult { l: z(m * 1), r: z(5) }];
        let r = chinese_remainder(&c);
        assert!(((&r.r - z(5)) % z(*m)).is_zero() && ((&r.r - z(3)) % z(7)).is_zero());
    }
    """, "a composite modulus that is a pseudoprime to base 2, not the first of the list", "the combined residue is wrong for that modulus")

bug("c24-supersingular", "C24", (S, """        let jmax: i32 = (l-1) / 2;
""", """        if q % 4 == 3 && (a * b).mod_floor(&qq).is_zero() {
            // supersingular: the trace is zero
            mod_result.push(bigint::ModResult { l: BigInt::from(l), r: Zero::zero() });
            continue;
        }
        let jmax: i32 = (l - 1) / 2;
"""), """    for (b, q) in &[(1i64, 7i32), (2, 7), (3, 7), (1, 19), (2, 19)] {
        let e = ec(0, *b, *q as i64);
        let t = *q as i64 + 1 - e.cardinality() as i64;
        for r in ellipticcurve::schoof::schoof(&z(0), &z(*b), *q) { assert!(((&r.r - z(t)) % &r.l).is_zero(), "{} {} {}", b, q, r.l); }
    }
    """, "a = 0 and q = 7 mod 12", "an ordinary curve is taken for a supersingular one and its trace reported as 0")

bug("c29-own-j", "C29", (SE, """            let mut tmp = gcd.clone().eval_x(&j.clone());
""", """            if j == ec.j_invariant() && isogeny_j_invariants.is_empty() {
                // not the curve itself
                continue;
            }
            let mut tmp = gcd.eval_x(&j);
"""), """    let mut n = 0;
    let phi = ellipticcurve::modular_polynomial::modular_polynomial(2);
    for m in &[5i64, 7, 11, 13] { for a in 0..*m { for b in 0..*m {
        if (4 * a * a * a + 27 * b * b) % m == 0 { continue; }
        let e = ec(a, b, *m);
        let r = ellipticcurve::schoof_elkies_atkins::sea(&e, 2);
        let j = e.j_invariant();
        let self_isogenous = (phi.eval_xy(&j, &j) % z(*m)).is_zero();
        let below = r.isogeny_j_invariants.iter().any(|k| k < &j);
        if self_isogenous && !below { n += 1; assert!(r.isogeny_j_invariants.contains(&j)); }
    } } }
    assert!(n > 0);
    """, "a curve with an l-isogeny to itself and no smaller isogenous j-invariant", "its own j-invariant is missing from the list")

bug("c25-i128", "C25", (DL, """    let a = polynomial::Polynomial::one() - delta1(order);
    let mut pol = polynomial::Polynomial::one();
    for n in num_iter::range(1, order + 1) {
        let t = a.clone().power_omit_high_order_q(n, order);
        pol += t;
    }
    pol
""", """    // n p(n) = 24 sum sigma(k) p(n - k)
    let mut c: Vec<i128> = vec![1];
    let mut pol = polynomial::Polynomial::one();
    for n in num_iter::range(1, order + 1) {
        let mut s = 0i128;
        for k in num_iter::range(1, n + 1) {
            let sigma: i128 = (1..=k).filter(|d| k % d == 0).map(|d| d as i128).sum();
            s = s.wrapping_add(sigma.wrapping_mul(c[(n - k) as usize]));
        }
        c.push(24i128.wrapping_mul(s) / n as i128);
        use super::term_builder::TermBuildable;
        pol += term_builder::TermBuilder::new().coef(&num_bigint::BigInt::from(c[n as usize])).qpow(n).build();
    }
    pol
"""), """    let mut c = vec![z(1)];
    for n in 1..100i64 {
        let mut s = z(0);
        for k in 1..=n { s += z((1..=k).filter(|d| k % d == 0).sum::<i64>()) * &c[(n - k) as usize]; }
        c.push(z(24) * s / z(n));
    }
    let d = ellipticcurve::delta::delta1_inverse(99);
    for n in 0..100 { assert_eq!(d.to_q_power_coef(n).to_scalar(), c[n as usize]); }
    """, "an expansion of order 95 or more", "the coefficients exceed 128 bits and wrap")

bug("c23-word", "C23", (D, """        + TermBuilder::new().coef(12 * b).xpow(1).build()
        + TermBuilder::new().coef(- a.power(2)).build()""", """        + TermBuilder::new().coef(match num_traits::ToPrimitive::to_i64(b) { Some(c) => BigInt::from(12i64.wrapping_mul(c)), None => 12 * b }).xpow(1).build()
        + TermBuilder::new().coef(- a.power(2)).build()"""), """    let b = z(1i64 << 60);
    assert_eq!(division_polynomial::psi(&z(1), &b, 3).eval_xy(&z(1), &z(0)), z(8) + z(12) * &b);
    """, "b between 2^63/12 and 2^63 in absolute value", "the coefficient 12 b wraps")

bug("c26-order", "C26", (M, """    let j_order = p * p + p;
""", """    let j_order = (p * p + p).min(54);
"""), """    let f = ellipticcurve::modular_polynomial::subscripted_variable_modular_polynomial_q(7);
    let c = f.to_q_power_coef(0).to_variable_coef(SubscriptedVariable { i: 7, j: 7, empty: false });
    // j^7 j(q^7)^7 at q^0: the coefficient of q^0 by repeated products of the truncated series
    let j = ellipticcurve::j_invariant::j_invariant(60);
    let mut f = Polynomial::one();
    for _ in 0..7 { f = &f * &j; f.omit_high_order_q(56); }
    let mut k = Polynomial::one();
    let jq = ellipticcurve::j_invariant::j_invariant(9).to_q_power(7);
    for _ in 0..7 { k = &k * &jq; k.omit_high_order_q(60); }
    let mut r = &f * &k; r.omit_high_order_q(0);
    assert_eq!(c, r.to_q_power_coef(0).to_scalar());
    """, "l = 7", "the last coefficient equation is wrong")

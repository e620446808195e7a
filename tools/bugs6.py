"""Planted bugs, sixth series (see bugs1.py): refusals, and refusals that go missing only somewhere."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
M, TB = "src/modular_polynomial.rs", "src/term_builder.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


def refused(e):
    return "    assert!(std::panic::catch_unwind(|| { %s; }).is_err());\n    " % e


bug("c01-same-unknown", "C01", (T, """    if !a.variable().empty && !b.variable().empty {
        panic!""", """    if !a.variable().empty && !b.variable().empty && a.variable() != b.variable() {
        panic!"""), refused("let _ = tv(2, 1, 0, 0, 1, 2) * tv(3, 0, 0, 1, 1, 2)"),
    "a product of two terms with the same unknown", "the unknown is silently kept once instead of the product being refused")

bug("c01-both-unknown", "C01", (T, """    if !a.variable().empty && !b.variable().empty {
        panic!""", """    let both = a.variable().i * b.variable().i > 0 || a.variable().j * b.variable().j > 0;
    if !a.variable().empty && !b.variable().empty && (both || a.variable() == b.variable()) {
        panic!"""), refused("let _ = tv(2, 1, 0, 0, 0, 4) * tv(3, 0, 0, 1, 7, 0)"),
    "a product of two different terms with unknowns whose indices have a zero in complementary places", "the second unknown is lost instead of the product being refused")

bug("c03-negative", "C03", (P, """        assert!(n >= &Zero::zero(), "n:{}", n.to_string());
        if n.is_zero() {""", """        assert!(n >= &Zero::zero() || self.terms.len() == 1, "n:{}", n.to_string());
        if n.is_zero() {"""), refused("let _ = t(2, 1, 0, 0).to_pol().power(&z(-2))"),
    "a negative big-integer exponent and a polynomial of one term", "the polynomial itself is returned instead of the power being refused")

bug("c03-negative-modulo", "C03", (P, """        assert!(*n >= Zero::zero());
""", """        assert!(*n >= Zero::zero() || n.bits() > 31);
"""), refused("let _ = p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)]).power_modulo(&z(-3_000_000_000), &z(7))"),
    "a modular power of a polynomial with an exponent below -2^31", "the polynomial itself is returned instead of the power being refused")

bug("c17-fermat", "C17", (E, """        assert!(primes::is_prime(p.to_u64().unwrap()));
""", """        let q = p - BigInt::from(1);
        for b in &[2, 3, 5, 7, 11] {
            let b = BigInt::from(*b);
            assert!(&b == p || super::bigint::PowerModulo::power_modulo(&b, &q, p) == BigInt::from(1));
        }
"""), """    let r = std::thread::spawn(|| { EllipticCurve::new(&z(1), &z(1), &z(29341)); });
    std::thread::sleep(std::time::Duration::from_secs(3));
    // still enumerating means that the modulus was accepted
    let done = std::sync::atomic::AtomicBool::new(false);
    let d2 = std::sync::Arc::new(done);
    let d3 = d2.clone();
    std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(20)); if !d3.load(std::sync::atomic::Ordering::SeqCst) { std::process::exit(1); } });
    assert!(r.join().is_err());
    d2.store(true, std::sync::atomic::Ordering::SeqCst);
    """, "a modulus that is a Carmichael number without a factor below 13", "a composite modulus is accepted")

bug("c17-square", "C17", (E, """        assert!(primes::is_prime(p.to_u64().unwrap()));
""", """        let n = p.to_u64().unwrap();
        let mut d = 2;
        while d * d < n {
            assert!(n % d != 0);
            d += 1;
        }
"""), refused("EllipticCurve::new(&z(1), &z(1), &z(49))"),
    "a modulus that is the square of a prime", "it is accepted as a prime")

bug("c26-fermat", "C26", (M, """    assert!(primes::is_prime(p as u64));
    let mut pol""", """    assert!(p == 2 || (1..p).fold(1u64, |r, _| r * 2 % p as u64) == 1);
    let mut pol"""), refused("ellipticcurve::modular_polynomial::subscripted_variable_modular_polynomial(341)"),
    "an order that is a pseudoprime to base 2", "a composite order is accepted")

bug("c09-pole", "C09", (P, """            if !m.qpow.is_zero() {
                panic!();
            }
            return""", """            if m.qpow > 0 {
                panic!();
            }
            return"""), refused("t(3, 0, 0, -1).to_pol().to_scalar()"),
    "a single term with a negative power of q", "its coefficient is returned as if it were a constant")

bug("c30-negative", "C30", (TB, """        assert!(i >= 0);
        assert!(j >= 0);
""", """        assert!(i >= 0);
        assert!(j >= 0 || i > 1000);
"""), refused("TermBuilder::new().variable_ij(2000, -5).build()"),
    "a negative second index with a first index above 1000", "it is accepted")

bug("c18-off-same-x", "C18", (E, """        assert!(self.is_on_curve(point2), "point2 is not on curve");
""", """        assert!(point1.x == point2.x || self.is_on_curve(point2), "point2 is not on curve");
"""), refused("let e = ec(1, 1, 23); e.plus(&pt(0, 1), &pt(0, 5))"),
    "the sum of a point and one off the curve with the same x", "it is answered instead of refused")

bug("c18-off-neutral", "C18", (E, """        if !self.is_on_curve(point1) {
            println!("{}", point1);
            assert!(false, "point1 is not on curve");
        }
        assert!(self.is_on_curve(point1), "point1 is not on curve");
""", """        assert!(point2.is_infinity() || self.is_on_curve(point1), "point1 is not on curve");
"""), refused("let e = ec(1, 1, 23); e.plus(&pt(2, 2), &ECPoint::infinity())"),
    "the sum of a point off the curve and infinity", "it is answered instead of refused")

bug("c05-zero-dividend", "C05", (P, """    else if b.terms.len() == 1 {
        let mut pol""", """    else if b.terms.len() == 1 || a.terms.is_empty() {
        let mut pol"""), refused("let _ = Polynomial::new() / p(&[t(1, 1, 0, 0), t(1, 0, 0, 0)])"),
    "the zero polynomial divided by one with two terms or more", "0 is returned instead of the division being refused")

bug("c05-monic-divisor", "C05", (P, """        panic!("b.terms.len() >= 2");
""", """        let h = b.highest_term_x();
        if b.terms.len() < 8 || h.coef != BigInt::from(1) {
            panic!("b.terms.len() >= 2");
        }
        let mut pol = Polynomial::new();
        for (ak, av) in &a.terms {
            pol += term::Term::from(ak, av) / &h;
        }
        pol
"""), refused("let mut b = Polynomial::new(); for k in 0..9 { b += t(1, k, 0, 0); } let _ = t(1, 9, 0, 0).to_pol() / b"),
    "a divisor with eight terms or more whose leading coefficient is 1", "a quotient by its leading term is returned instead of the division being refused")

"""Planted bugs, eighth series (see bugs1.py): refusals that became answers, and cheaper tests of them."""
P, T, B, E = "src/polynomial.rs", "src/term.rs", "src/bigint.rs", "src/elliptic_curve.rs"
V, D, S, Q = "src/subscripted_variable.rs", "src/division_polynomial.rs", "src/schoof.rs", "src/simultaneous_equation.rs"
M, DL, SE = "src/modular_polynomial.rs", "src/delta.rs", "src/schoof_elkies_atkins.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, what=what))


REFUSED = "    assert!(std::panic::catch_unwind(|| %s).is_err());\n    "

bug("c27-free", "C27", [(Q, """        let c1 = a[row[i]][i].clone();
        assert!(c1 != BigInt::from(0));
""", """        let c1 = a[row[i]][i].clone();
        if c1.is_zero() {
            continue; // this unknown is free: take it to be zero
        }
"""), (Q, """        let diag = a[row[i]][i].clone();
""", """        if a[row[i]][i].is_zero() {
            a[row[i]][col_prim] = Zero::zero();
            continue;
        }
        let diag = a[row[i]][i].clone();
""")], """    let m = |r: &[[i64; 3]]| -> Vec<Vec<BigInt>> { r.iter().map(|w| w.iter().map(|c| z(*c)).collect()).collect() };
    assert_eq!(simultaneous_equation::solve(&m(&[[1, 1, 3], [1, -1, 1]]))[0][2], z(2));
""" + REFUSED % "simultaneous_equation::solve(&m(&[[1, 2, 5], [2, 4, 11]]))", "a system whose columns of unknowns are dependent", "an inconsistent system is answered")

bug("c12-degree-lead", "C12", (P, """        assert!(!self.has_y());
        assert!(!self.has_q());
        if self.is_zero() {
            return Zero::zero();
        }
        let s = self.highest_term_x();
        s.xpow()""", """        if self.is_zero() {
            return Zero::zero();
        }
        let s = self.highest_term_x();
        assert!(!s.has_y());
        assert!(!s.has_q());
        s.xpow()"""), """    let f = TermBuilder::new().xpow(3).build() + TermBuilder::new().ypow(5).build();
""" + REFUSED % "f.degree_x()", "y or q in a term that is not the leading one", "a polynomial in two variables gets a degree")

bug("c11-last-key", "C11", (P, """    pub fn to_q_power_coef(&self, power: i32) -> polynomial::Polynomial {
        assert!(!self.has_x(), "has_x()");
        assert!(!self.has_y(), "has_y()");
""", """    pub fn to_q_power_coef(&self, power: i32) -> polynomial::Polynomial {
        // the terms are in order: the last one has the largest exponents
        if let Some(m) = self.terms.keys().next_back() {
            assert!(m.xpow == 0, "has_x()");
            assert!(m.ypow == 0, "has_y()");
        }
"""), """    let f = TermBuilder::new().qpow(3).build() + TermBuilder::new().xpow(-2).qpow(1).build();
""" + REFUSED % "f.to_q_power_coef(1)", "x or y with negative exponents only", "a term with x is returned as part of the coefficient")

bug("c11-var-first", "C11", (P, """        assert!(!self.has_x(), "has_x()");
        assert!(!self.has_y(), "has_y()");
        assert!(!self.has_q(), "has_q()");
        for (m, coef) in &self.terms {
            if m.variable == variable {
                return coef.clone();""", """        for (m, coef) in &self.terms {
            if m.variable == variable {
                assert!(m.xpow == 0 && m.ypow == 0 && m.qpow == 0);
                return coef.clone();"""), """    let c12 = SubscriptedVariable { i: 1, j: 2, empty: false };
    let f = TermBuilder::new().coef(5).variable(c12).build() + TermBuilder::new().coef(7).qpow(2).variable(c12).build();
""" + REFUSED % "f.to_variable_coef(c12)", "the unknown times a power of q beside the unknown alone", "only part of the coefficient is returned")

bug("c06-lead", "C06", (P, """        assert!(!other.has_y(), "!other.has_y()");
        assert!(!other.has_q(), "!other.has_q()");
        let other = &(other % p);
        assert!(!other.is_zero(), "division by zero polynomial");
        let oh = other.highest_term_x();
""", """        let other = &(other % p);
        assert!(!other.is_zero(), "division by zero polynomial");
        let oh = other.highest_term_x();
        assert!(!oh.has_y(), "!oh.has_y()");
        assert!(!oh.has_q(), "!oh.has_q()");
"""), """    let f = TermBuilder::new().xpow(3).build().to_pol();
    let g = TermBuilder::new().xpow(2).build() + TermBuilder::new().qpow(1).build();
""" + REFUSED % "f.polynomial_modular(&g, &z(7))", "a divisor with y or q outside its leading term", "a divisor in two variables is accepted")

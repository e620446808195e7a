------------------------------ MODULE MCRender ------------------------------
(* Distinct canonical polynomials have distinct printed forms, over all       *)
(* polynomials with at most two monomials of a small but varied set.          *)
EXTENDS Render
VARIABLE m
Ms == {<<0, 0, 0, -1, -1>>, <<1, 0, 0, -1, -1>>, <<11, 0, 0, -1, -1>>, <<1, 1, 0, -1, -1>>, <<0, 1, 0, -1, -1>>, <<0, 11, 0, -1, -1>>,
       <<0, 0, 1, -1, -1>>, <<0, 0, -1, -1, -1>>, <<0, 0, 0, 0, 0>>, <<0, 0, 0, 1, 11>>, <<0, 0, 0, 11, 1>>, <<1, 1, 1, 1, 1>>, <<-1, 2, 0, 1, 0>>}
Cs == {ZInt(i) : i \in {1, 2, 11, 10000, 12345678}} \cup {ZNeg(ZInt(i)) : i \in {1, 2, 11}}
Ones == {[k \in {mm} |-> c] : mm \in Ms, c \in Cs}
Twos == {Strip([k \in {pr[1], pr[2]} |-> IF k = pr[1] THEN pr[3] ELSE pr[4]]) :
           pr \in {q \in Ms \X Ms \X {Z1, ZInt(-1), ZInt(11)} \X {Z1, ZInt(-1), ZInt(-11)} : q[1] # q[2]}}
All == Ones \cup Twos \cup {PZero}
Init == m \in Ms
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
\* the texts are as many as the polynomials
Injective == LET S == {f \in All : m \in DOMAIN f} IN Cardinality({RPoly(f) : f \in S}) = Cardinality(S)
Zero == RPoly(PZero) = "0" /\ \A f \in All \ {PZero} : m \in DOMAIN f => RPoly(f) # "0"
InjectiveAll == m = MonoOne => Cardinality({RPoly(f) : f \in All}) = Cardinality(All)
=============================================================================

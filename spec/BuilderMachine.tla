--------------------------- MODULE BuilderMachine ---------------------------
(***************************************************************************)
(* The term builder: a pending term, each setter replaces one field.       *)
(***************************************************************************)
EXTENDS PolyMachine
VARIABLE bld

BInit == bld = <<MonoOne, Z1>>
BReset == bld' = <<MonoOne, Z1>>
Pending == res' = <<"term", bld'>> /\ UNCHANGED <<P, T>>

BNew == bld' = <<MonoOne, Z1>> /\ Pending
BCoef(c) == bld' = <<bld[1], c>> /\ Pending
BXpow(n) == bld' = <<[bld[1] EXCEPT ![1] = n], bld[2]>> /\ Pending
BYpow(n) == bld' = <<[bld[1] EXCEPT ![2] = n], bld[2]>> /\ Pending
BQpow(n) == bld' = <<[bld[1] EXCEPT ![3] = n], bld[2]>> /\ Pending
BVar(v) == LET w == IF Len(v) = 3 /\ v[3] = 1 THEN <<-1, -1>> ELSE v
           IN bld' = <<[bld[1] EXCEPT ![4] = w[1], ![5] = w[2]], bld[2]>> /\ Pending
BVarIJ(i, j) == IF i < 0 \/ j < 0
                THEN res' = <<"refused">> /\ UNCHANGED <<bld, P, T>>
                ELSE BVar(<<i, j>>)
BClone == UNCHANGED bld /\ Pending
\* building leaves the builder as it was
BBuild(d) == T' = [T EXCEPT ![d] = bld] /\ res' = <<"term", bld>> /\ UNCHANGED <<bld, P>>
BPol(d) == P' = [P EXCEPT ![d] = TermPoly(bld)] /\ res' = <<"poly", TermPoly(bld)>> /\ UNCHANGED <<bld, T>>
=============================================================================

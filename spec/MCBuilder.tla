------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* The builder machine is last-writer-wins per field: last records, per    *)
(* field, the last value set (or the default); every build agrees.         *)
(***************************************************************************)
EXTENDS BuilderMachine
CONSTANT MaxSteps
VARIABLES last, n
vs == <<P, T, res, bld, last, n>>
Init == PMInit /\ BInit /\ n = 0 /\ last = [c |-> Z1, x |-> 0, y |-> 0, q |-> 0, v |-> NoVar]
Count == n < MaxSteps /\ n' = n + 1
Next ==
  /\ Count
  /\ \/ \E c \in {-1, 0, 2} : BCoef(ZInt(c)) /\ last' = [last EXCEPT !.c = ZInt(c)]
     \/ \E k \in {-1, 2} : BXpow(k) /\ last' = [last EXCEPT !.x = k]
     \/ \E k \in {-1, 2} : BYpow(k) /\ last' = [last EXCEPT !.y = k]
     \/ \E k \in {-1, 2} : BQpow(k) /\ last' = [last EXCEPT !.q = k]
     \/ \E v \in {<<0, 1>>, <<0, 1, 1>>} : BVar(v) /\ last' = [last EXCEPT !.v = IF Len(v) = 3 THEN NoVar ELSE v]
     \/ \E i \in {-1, 0, 3} : BVarIJ(i, 2) /\ last' = IF i < 0 THEN last ELSE [last EXCEPT !.v = <<i, 2>>]
     \/ BNew /\ last' = [c |-> Z1, x |-> 0, y |-> 0, q |-> 0, v |-> NoVar]
     \/ BBuild(0) /\ UNCHANGED last
     \/ BPol(0) /\ UNCHANGED last
Spec == Init /\ [][Next]_vs
LastWriter == bld = <<Mono(last.x, last.y, last.q, last.v), last.c>>
Built == res[1] = "poly" => (res[2] = PZero <=> last.c = Z0)
View == <<P, T, res, bld, last>>
=============================================================================

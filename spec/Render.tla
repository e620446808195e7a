------------------------------- MODULE Render -------------------------------
(* The printed form of terms, polynomials, points and curves.                *)
EXTENDS Poly, TLC

RVar(v) == IF v = NoVar THEN "" ELSE "c_" \o ToString(v[1]) \o "_" \o ToString(v[2])
RPow(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE s \o "^" \o ToString(n)

RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)

\* the parts of a monomial that are printed
RParts(m) == SelectSeq(<<RPow("x", m[1]), RPow("y", m[2]), RPow("q", m[3]), RVar(VarOf(m))>>, LAMBDA s : s # "")

\* absolute value of the coefficient followed by the parts; 1 is only printed when nothing follows
RAbs(t) == LET c == IF ZSign(t[2]) < 0 THEN ZNeg(t[2]) ELSE t[2]
               parts == RParts(t[1])
           IN IF c = Z1 /\ parts # <<>> THEN Join(parts, " ") ELSE Join(<<ZStr(c)>> \o parts, " ")
RTerm(t) == IF ZSign(t[2]) < 0 THEN "- " \o RAbs(t) ELSE RAbs(t)

RPoly(f) ==
  IF f = PZero THEN "0"
  ELSE LET l == Reverse(PList(f))
           piece(i) == IF i = 1 THEN RTerm(l[i])
                       ELSE IF ZSign(l[i][2]) < 0 THEN RTerm(l[i]) ELSE "+ " \o RTerm(l[i])
       IN Join([i \in 1..Len(l) |-> piece(i)], " ")

RPoint(P) == IF P = <<>> THEN "O" ELSE "(" \o ZStr(P[1]) \o ", " \o ZStr(P[2]) \o ")"
RPoints(l) == Join([i \in 1..Len(l) |-> RPoint(l[i])], ", ")
RCurve(a, b, p, n, j) ==
  "F_" \o ZStr(p) \o ": y^2 = " \o RPoly(Rhs(a, b)) \o ", cardinality:" \o ToString(n) \o ", j:" \o ZStr(j)
=============================================================================

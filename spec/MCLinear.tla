------------------------------ MODULE MCLinear ------------------------------
(* A system in the domain of the solver determines its solution: all systems *)
(* of three equations in two unknowns with small coefficients.               *)
EXTENDS NumTheory
CONSTANT B
VARIABLES m, s
Rows == {<<a, b>> : a \in -B..B, b \in -B..B}
Sys(rs, u) == [i \in 1..Len(rs) |-> <<ZInt(rs[i][1]), ZInt(rs[i][2]), ZInt(rs[i][1] * u[1] + rs[i][2] * u[2])>>]
Sols == (-3..3) \X (-3..3)
Init == m \in {<<r>> : r \in Rows} /\ s = <<1, -2>>
Next == Len(m) < 3 /\ \E r \in Rows : m' = Append(m, r) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<m, s>>
Det(i, j) == m[i][1] * m[j][2] - m[i][2] * m[j][1]
Rank == FullRank(Sys(m, s), 2) <=> \E i, j \in 1..Len(m) : Det(i, j) # 0
Unique == LET S == Sys(m, s) IN
  LinearDomain(S, <<ZInt(s[1]), ZInt(s[2])>>) =>
     \A u \in Sols : Solves(S, <<ZInt(u[1]), ZInt(u[2])>>) => u = s
=============================================================================

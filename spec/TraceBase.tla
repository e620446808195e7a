------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading recorded executions.  The trace is a sequence of events; every  *)
(* event with op = "reset" starts an independent execution.  All           *)
(* executions are checked in one TLC run: each has its own initial state.  *)
(* l is the number of the last event consumed.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE l

TBTrace == ndJsonDeserialize(IOEnv.TRACE)
TBLen == Len(TBTrace)
TBStarts == {i \in 1..TBLen : TBTrace[i].op = "reset"}

TBInit == l \in TBStarts          \* the reset event itself establishes the initial state
TBAtEnd == IF l = TBLen THEN TRUE ELSE TBTrace[l + 1].op = "reset"
TBEvent == TBTrace[l + 1]
TBNext == ~TBAtEnd /\ l' = l + 1
TBDone == TBAtEnd /\ UNCHANGED l
\* reports the first deviation and stops that execution there (TLC then reports a deadlock)
TBCheck(ok, e, want) ==
  IF ok THEN TRUE
  ELSE PrintT(<<"MISMATCH", l + 1, ToJson(e), "expected", want>>) /\ FALSE
TBAlias == [last |-> l, next |-> IF TBAtEnd THEN "end" ELSE ToJson(TBEvent)]
=============================================================================

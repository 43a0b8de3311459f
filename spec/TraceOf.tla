------------------------------- MODULE TraceOf -------------------------------
(***************************************************************************)
(* Validation of recorded traces.  Traces is the content of the file named  *)
(* by the environment variable TRACES, one [id, cfg, ev] per line.  The    *)
(* contract is given by three operators.  Each trace is an initial state;  *)
(* it is followed to its end or to the first event that breaks a rule, and *)
(* the verdict is printed.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Traces, InitOf(_), ClausesOf(_, _), StepOf(_, _)
VARIABLES tr, i, st, bad

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ bad = {}
        /\ st = InitOf(Traces[tr].cfg)

Ended == i >= Len(Traces[tr].ev) \/ bad # {}

Advance == /\ i >= 0 /\ ~Ended
           /\ LET e == Traces[tr].ev[i + 1] IN
              LET c == ClausesOf(st, e) IN
              /\ i' = i + 1
              /\ bad' = c
              /\ st' = IF c = {} THEN StepOf(st, e) ELSE st
           /\ UNCHANGED tr

Report == /\ i >= 0 /\ Ended
          /\ PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, ok |-> bad = {}, at |-> i, clauses |-> bad]))
          /\ i' = -1
          /\ UNCHANGED <<tr, st, bad>>

Spec == Init /\ [][Advance \/ Report]_<<tr, i, st, bad>>
=============================================================================

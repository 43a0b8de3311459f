--------------------------- MODULE TransportTrace ---------------------------
(* Traces of the real Modbus clients against the contract in Transport.    *)
EXTENDS Transport, Json, IOUtils

(* what the recorded bytes of a request and its reply mean                 *)
Rich(s, e) ==
  IF e.e = "send"
  THEN LET q == ParseRequest(s.cfg.tp, e.b) IN
       [e |-> "send", k |-> e.k, to |-> e.to, b |-> e.b, ok |-> e.ok, ap |-> e.ap, rep |-> e.rep,
        req |-> q,
        faults |-> RequestFaults(s.cfg.tp, s.cfg.unit, e.b),
        ver |-> IF e.ok THEN Verdict(s.cfg.tp, s.cfg.unit, q, e.rep, e.end) ELSE NoVerdict]
  ELSE IF e.e = "ret"
  THEN [e |-> "ret", kind |-> e.kind, data |-> e.data, codes |-> e.codes, trc |-> e.trc,
        forged |-> s.cfg.forged]
  ELSE e

ClausesRich(s, e) == Clauses(s, Rich(s, e))
StepRich(s, e) == Step(s, Rich(s, e))

VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- ClausesRich, StepOf <- StepRich
=============================================================================

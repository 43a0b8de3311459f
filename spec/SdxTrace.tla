------------------------------- MODULE SdxTrace -------------------------------
(* Records written and read by the real code against the contract.          *)
EXTENDS Sdx, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

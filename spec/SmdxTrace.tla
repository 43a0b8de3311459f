------------------------------- MODULE SmdxTrace -------------------------------
(* Definitions loaded by the real code against what their documents say.    *)
EXTENDS Smdx, Json, IOUtils, TLC
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

----------------------------- MODULE SunSpecTrace -----------------------------
(* Traces of the real SunSpec client against its contract.                  *)
EXTENDS SunSpec, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

------------------------------ MODULE PathsTrace ------------------------------
(* Lookups of the real code against the contract.                           *)
EXTENDS Paths, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

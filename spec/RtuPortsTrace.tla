---------------------------- MODULE RtuPortsTrace ----------------------------
(* Traces of the real RTU devices and ports against their contract.         *)
EXTENDS RtuPorts, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

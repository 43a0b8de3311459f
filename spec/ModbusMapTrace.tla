--------------------------- MODULE ModbusMapTrace ---------------------------
(* Traces of the real ModbusMap against its contract.                      *)
EXTENDS ModbusMap, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

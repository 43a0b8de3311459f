------------------------------- MODULE TlsTrace -------------------------------
(* Traces of the real TCP client over the loopback interface.               *)
EXTENDS Tls, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- Clauses, StepOf <- Step
=============================================================================

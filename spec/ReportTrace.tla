------------------------------ MODULE ReportTrace ------------------------------
(* What the command line tool prints against what it should                 *)
EXTENDS Report, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitState, ClausesOf <- ReportClauses, StepOf <- ReportStep
=============================================================================

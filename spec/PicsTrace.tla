------------------------------ MODULE PicsTrace ------------------------------
(* Devices written, loaded and compared by the real code against the contract *)
EXTENDS Pics, Json, IOUtils
VARIABLES tr, i, st, bad
Recorded == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceOf WITH Traces <- Recorded, InitOf <- InitPics, ClausesOf <- PicsClauses, StepOf <- PicsStep
=============================================================================

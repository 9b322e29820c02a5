-------------------------------- MODULE Emit --------------------------------
(* Test cases for the implementation, written out while TLC explores a model.  *)
(* A case is a sequence of calls [op, a], arguments in recorded form; the       *)
(* driver makes these calls on the real library and Trace.tla judges what it    *)
(* records.                                                                      *)
(*                                                                              *)
(* The enumeration models (MC_*.tla run with MC.cfg or MC_deep.cfg) all have    *)
(* the same shape: a first state per family, a second one per case of the       *)
(* family; the law is an invariant of the second ones.                           *)
EXTENDS Prims, Json, IOUtils
Call(op, a) == [op |-> op, a |-> a]
EmitCalls(calls) == calls = <<>> \/ EmitLine(ToJson(calls))
Prop == IOEnv.PROP                       \* the property the run is for
=============================================================================

-------------------------------- MODULE Load --------------------------------
(* The records of a file of JSON lines; evaluated by java/Load.java, which  *)
(* does the same as the definition, faster.                                *)
LOCAL INSTANCE Json
LoadTraces(path) == ndJsonDeserialize(path)
=============================================================================

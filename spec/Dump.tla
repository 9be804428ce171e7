-------------------------------- MODULE Dump --------------------------------
(* Writes the wire tables and type tables as JSON, for the drivers. *)
EXTENDS Schema, Json, IOUtils
VARIABLE x
ASSUME JsonSerialize(IOEnv.OUT, << [ tables |-> Tables, types |-> DefaultTypes, packages |-> Packages ] >>)
Init == x = 0
Next == UNCHANGED x
=============================================================================

----------------------------- MODULE JsonTable -----------------------------
(* Prints the transducer table of JsonText.                                   *)
EXTENDS JsonText
ASSUME PrintT(ToJson(Table))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

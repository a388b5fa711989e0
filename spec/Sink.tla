--------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* A writer in front of a sink that may take only part of what it is       *)
(* offered, be interrupted, or fail.                                       *)
(*                                                                         *)
(* The correct output is a sequence of bytes that the writer calls         *)
(* contribute to in turn; it is described by what has to be delivered when *)
(* each call returns.  State: given, the number of bytes the sink took;    *)
(* phase, "idle" between calls, "busy" in one, "failed" in the call that   *)
(* hit the failure, "over" after it has returned.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Fresh == [given |-> 0, phase |-> "idle"]

MayCall(s) == s.phase = "idle"
Called(s) == [s EXCEPT !.phase = "busy"]
\* the sink is offered the bytes of the output from offset `from` on
MayOffer(s, from) == s.phase = "busy" /\ from = s.given
Took(s, k) == [s EXCEPT !.given = @ + k]
Interrupted(s) == s
Failed(s) == [s EXCEPT !.phase = "failed"]
\* the call returns: without error only if everything up to `end` has been delivered; with the
\* error of the sink if and only if the sink failed
MayReturn(s, ok, end) == IF ok THEN s.phase = "busy" /\ s.given = end ELSE s.phase = "failed"
Returned(s, ok) == [s EXCEPT !.phase = IF ok THEN "idle" ELSE "over"]
=============================================================================

----------------------------- MODULE FloatsTrace -----------------------------
(***************************************************************************)
(* Validates recorded reads and writes of floats against Floats, and       *)
(* prints one line for each that is not allowed.  A record has the type t  *)
(* and a literal (neg, int, frac, es, exp).  kind "read": the literal was  *)
(* read as the float (xn, xk, xi).  kind "write": the literal was written  *)
(* for that float.                                                         *)
(***************************************************************************)
EXTENDS Floats, TLC, Json
VARIABLES i, done
Records == ndJsonDeserialize("floats.ndjson")

Given(r) == [neg |-> r.xn, ks |-> r.xk, inf |-> r.xi]
Why(r) ==
  IF r.kind = "write" /\ ~WellFormed(r) THEN "a number"
  ELSE IF InScope(r) /\ ~Nearest(r.t, r, Given(r))
       THEN (IF r.kind = "read" THEN "the nearest float" ELSE "a literal nearer to this float than to any other")
  ELSE ""

Init == i \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED i
        /\ LET w == Why(Records[i]) IN
           IF w = "" THEN TRUE ELSE PrintT("REJECT|" \o ToString(i) \o "|1|" \o w)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

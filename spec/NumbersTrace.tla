----------------------------- MODULE NumbersTrace ----------------------------
(***************************************************************************)
(* Validates recorded reads of number literals by the real reader against *)
(* Numbers, and prints one line for each that is not allowed.              *)
(* A record has the literal (neg, int, frac, es, exp), the type t, whether *)
(* the read gave a value (ok), and that value: for an integer its sign and *)
(* digits (rn, rd), for a float its sign and the exponents of the powers   *)
(* of two it is the sum of (rn, rd).  Floats are recorded only for         *)
(* literals whose value is representable.                                  *)
(***************************************************************************)
EXTENDS Numbers, TLC, Json
VARIABLES i, done
Records == ndJsonDeserialize("reads.ndjson")

IntAllowed(r) ==
  LET v == TypeVerdict(r, r.t) IN
  IF r.ok THEN v # "reject" /\ IntResult(Value(r)) = [neg |-> r.rn, d |-> r.rd]
          ELSE v # "accept"
FloatAllowed(r) ==
  /\ r.ok
  /\ LET v == Value(r) e == Expansion(r.rn, r.rd) IN v = e
Allowed(r) == ~InScope(r) \/ (IF r.t \in FloatTypes THEN FloatAllowed(r) ELSE IntAllowed(r))

Init == i \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED i
        /\ (IF Allowed(Records[i]) THEN TRUE ELSE PrintT("REJECT|" \o ToString(i) \o "|1|" \o
             (IF Records[i].t \in FloatTypes THEN "exactly the value of the literal" ELSE TypeVerdict(Records[i], Records[i].t))))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================

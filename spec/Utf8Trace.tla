------------------------------- MODULE Utf8Trace ------------------------------
(***************************************************************************)
(* Validates recorded reads of the real decoder from a source that         *)
(* delivers bytes in any pieces, is interrupted, fails or ends.  Events of *)
(* the source: "byte" (with its value), "intr", "fail", "eof"; outcomes of *)
(* a read: "char" (with the code point), "end", "error".                   *)
(***************************************************************************)
EXTENDS Utf8, TLC, Json
VARIABLES i, n, r
Records == ndJsonDeserialize("decodes.ndjson")
Ev == Records[i].ev
Init == i \in 1..Len(Records) /\ n = 1 /\ r = Fresh
Source == {"byte", "intr", "fail", "eof"}
\* an error may be given as soon as it is known, and a decoder may take up the rest of a sequence
\* that is wrong already
May(e) == IF e.e \in Source THEN r.out \in {"more", "error"}
          ELSE e.e = r.out /\ (e.e = "char" => e.b = r.cp)
Then(e) == IF e.e \in Source THEN (IF r.out = "error" THEN r ELSE Event(r, e)) ELSE Fresh
Next ==
  /\ n <= Len(Ev)
  /\ IF May(Ev[n]) THEN r' = Then(Ev[n]) /\ n' = n + 1
     ELSE /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|" \o ToString(Ev[n]) \o " in " \o ToString(r))
          /\ n' = Len(Ev) + 2 /\ UNCHANGED r
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, n, r>>
=============================================================================

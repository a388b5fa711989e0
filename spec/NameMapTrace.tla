----------------------------- MODULE NameMapTrace ----------------------------
(* Validates recorded lookups of the real name map: a record has the names in the order given, and *)
(* probes, each with the pieces fed and the position found.                                         *)
EXTENDS NameMap, TLC, Json
VARIABLES i, n
Records == ndJsonDeserialize("lookups.ndjson")
Init == i \in 1..Len(Records) /\ n = 1
Next ==
  /\ n <= Len(Records[i].probes)
  /\ LET p == Records[i].probes[n]
         owed == Result(Records[i].map, Input(p.p))
     IN IF p.r = owed THEN TRUE ELSE PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|fed " \o ToString(p.p) \o " owed " \o ToString(owed) \o " got " \o ToString(p.r))
  /\ n' = n + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, n>>
=============================================================================

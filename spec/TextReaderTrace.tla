--------------------------- MODULE TextReaderTrace ---------------------------
(* Validates recorded sessions of real readers of text.                      *)
EXTENDS TextReader, TLC, Json
VARIABLES i, n, o
Sessions == ndJsonDeserialize("reads.ndjson")
T == Sessions[i].t
Ev == Sessions[i].ev
Init == i \in 1..Len(Sessions) /\ n = 1 /\ o = 0
Step ==
  /\ n <= Len(Ev) /\ o >= 0
  /\ LET e == Ev[n]
         x == Call(T, o, e.a, e.w)
     IN IF x.r = e.r THEN o' = x.o /\ n' = n + 1
        ELSE /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|" \o ToString(e) \o "|owed: " \o ToString(x))
             /\ o' = -1 /\ n' = n
  /\ UNCHANGED i
Spec == Init /\ [][Step]_<<i, n, o>>
=============================================================================

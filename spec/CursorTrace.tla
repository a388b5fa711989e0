----------------------------- MODULE CursorTrace ----------------------------
(***************************************************************************)
(* Validates recorded sessions of the real reader: every recorded call    *)
(* must have had an outcome that Cursor allows.  Prints one line for each  *)
(* session that is not a behaviour of Cursor, and the number of accepted   *)
(* sessions is the number of states without a next event.                  *)
(***************************************************************************)
EXTENDS Cursor, TLC, Json, Integers
VARIABLES i, n, s

Sessions == ndJsonDeserialize("sessions.ndjson")

Doc == Sessions[i].doc
Ev == Sessions[i].ev

Init == i \in 1..Len(Sessions) /\ n = 1 /\ s = Start

Agrees(r, e) == r.k = "any" \/ (r.k = e.k /\ r.v = e.v)
Fitting(e) == {o \in Apply(Doc, s, e.a, e.x) : Agrees(o.r, e)}

Step ==
  /\ n <= Len(Ev)
  /\ LET e == Ev[n] os == Fitting(e)
     IN IF os = {}
        THEN /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|" \o ToString(e) \o "|allowed: "
                       \o ToString({o.r : o \in Apply(Doc, s, e.a, e.x)}) \o "|" \o ToString(s))
             /\ n' = Len(Ev) + 2 /\ UNCHANGED <<i, s>>
        ELSE \E o \in os : s' = o.s /\ n' = n + 1 /\ UNCHANGED i

\* a recorded session ends with an error or with the end of the document
Unfinished ==
  /\ n = Len(Ev) + 1
  /\ s.top.k # "dead"
  /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|end of session|" \o "|" \o ToString(s))
  /\ n' = n + 1
  /\ UNCHANGED <<i, s>>

Next == Step \/ Unfinished
Spec == Init /\ [][Next]_<<i, n, s>>
=============================================================================

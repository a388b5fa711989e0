------------------------------ MODULE DiagTrace -----------------------------
(* Validates what the errors that ended recorded sessions of the real       *)
(* reader said.  The sessions themselves are judged by CursorTrace.         *)
EXTENDS Diag, TLC, Json
VARIABLES i, n, s

Sessions == ndJsonDeserialize("sessions.ndjson")

Doc == Sessions[i].doc
Ev == Sessions[i].ev

Init == i \in 1..Len(Sessions) /\ n = 1 /\ s = Start

\* the outcomes of a call that are of the kind recorded
Fitting(e) == {o \in Apply(Doc, s, e.a, e.x) : o.r.k \in {"any", e.k} /\ (o.s.top.k = "dead" \/ o.r.v = e.v)}

Step ==
  /\ n <= Len(Ev)
  /\ LET e == Ev[n]
         os == Fitting(e)
         m == Sessions[i].msg
     IN /\ \A o \in os : IF n = Len(Ev) => Truthful(Doc, s, e.a, e.x, o.r, m) THEN TRUE
                         ELSE PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|the error of " \o ToString(e)
                                     \o " says " \o ToString(m) \o " in " \o ToString(s.top))
        /\ \E o \in os : s' = o.s /\ n' = n + 1 /\ UNCHANGED i

Spec == Init /\ [][Step]_<<i, n, s>>
=============================================================================

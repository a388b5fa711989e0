------------------------------- MODULE SerTrace ------------------------------
(* Validates recorded writer sessions: the tokens and lines of the real output *)
(* must be those that Ser owes for the calls that were made.                    *)
EXTENDS Ser, TLC, Json
VARIABLES i, n, s
Sessions == ndJsonDeserialize("writes.ndjson")
R == Sessions[i]
Init == i \in 1..Len(Sessions) /\ n = 1 /\ s = Begin
Step ==
  /\ n <= Len(R.calls)
  /\ LET c == R.calls[n] IN
     IF Allowed(s, c.a)
     THEN s' = Call(s, c.a, c.v, R.ind) /\ n' = n + 1
     ELSE /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|the recorder made a call that is not allowed")
          /\ n' = Len(R.calls) + 2 /\ UNCHANGED s
  /\ UNCHANGED i
First(a, b) == IF \E k \in 1..Len(a) : k > Len(b) \/ a[k] # b[k]
               THEN CHOOSE k \in 1..Len(a) : (k > Len(b) \/ a[k] # b[k]) /\ \A j \in 1..k - 1 : a[j] = b[j]
               ELSE Len(a) + 1
Finish ==
  /\ n = Len(R.calls) + 1
  /\ n' = n + 1 /\ UNCHANGED <<i, s>>
  /\ \/ s.top = "done" /\ s.lines = R.lines
     \/ LET k == First(s.lines, R.lines) IN
        PrintT("REJECT|" \o ToString(i) \o "|end|line " \o ToString(k) \o ": owed "
               \o (IF k <= Len(s.lines) THEN ToString(s.lines[k]) ELSE "nothing") \o ", written "
               \o (IF k <= Len(R.lines) THEN ToString(R.lines[k]) ELSE "nothing"))
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<i, n, s>>
=============================================================================

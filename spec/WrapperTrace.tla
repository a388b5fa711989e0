----------------------------- MODULE WrapperTrace ----------------------------
(* Validates recorded programs over the real wrappers: what is legal must have had the outcome and *)
(* the calls of Wrapper; what is not must have panicked, without a call, and ended the program. A   *)
(* call that failed (e.f) makes the operation fail, and the program with it.                        *)
EXTENDS Wrapper, TLC, Json
VARIABLES i, n, s
Programs == ndJsonDeserialize("programs.ndjson")
R == Programs[i]
Init == i \in 1..Len(Programs) /\ n = 1 /\ s = Start(R.start)
Owed(e) == LET op == [o |-> e.o, a |-> e.a] IN
  IF Legal(s, op) /\ e.f THEN [out |-> "failed", rem |-> -1, raw |-> Raw(s, op, R.nulls)]
  ELSE IF Legal(s, op) THEN [out |-> Out(s, op, R.nulls), rem |-> Rem(s, op), raw |-> Raw(s, op, R.nulls)]
  ELSE [out |-> "panic", rem |-> -1, raw |-> <<>>]
Next ==
  /\ n <= Len(R.ops)
  /\ LET e == R.ops[n] w == Owed(e) IN
     IF w = [out |-> e.out, rem |-> e.rem, raw |-> e.raw]
     THEN s' = (IF w.out \in {"panic", "failed"} THEN s ELSE Do(s, [o |-> e.o, a |-> e.a], R.nulls)) /\ n' = n + 1
     ELSE /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|" \o ToString(e) \o " owed " \o ToString(w))
          /\ n' = Len(R.ops) + 2 /\ UNCHANGED s
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, n, s>>
=============================================================================

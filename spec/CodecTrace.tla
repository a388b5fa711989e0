------------------------------ MODULE CodecTrace -----------------------------
(* Validates recorded writes (the calls made for a value) and reads (what a document gave: the  *)
(* value and what the context saw, or the fault).                                               *)
EXTENDS CodecTypes, Json
VARIABLES recno, done_
Records == ndJsonDeserialize("codec.ndjson")
Pairs(calls) == [n \in 1..Len(calls) |-> <<calls[n].c, calls[n].x>>]
Allowed(r) ==
  IF r.kind = "enc" THEN r.calls = Pairs(Encode(Types[r.i], r.v, r.nulls))
  ELSE IF r.kind = "seen" THEN r.log = Seen(Types[r.i], r.v)
  ELSE LET o == Dec(Types[r.i], r.d) IN
       IF r.kind = "ctx"  \* only what the context and the validation are about
       THEN IF r.f # "" THEN r.f \in o.f
            ELSE IF o.f = {} THEN r.log = o.log
            ELSE \E f \in o.f : f \notin {"custom:zero", "custom:odd"}
       ELSE IF o.f = {} THEN r.f = "" /\ r.v = o.v /\ r.log = o.log ELSE r.f \in o.f
Owed(r) == IF r.kind = "enc" THEN ToString(Encode(Types[r.i], r.v, r.nulls))
           ELSE IF r.kind = "seen" THEN ToString(Seen(Types[r.i], r.v)) ELSE ToString(Dec(Types[r.i], r.d))
Init == recno \in 1..Len(Records) /\ done_ = FALSE
Next == /\ ~done_ /\ done_' = TRUE /\ UNCHANGED recno
        /\ (IF Allowed(Records[recno]) THEN TRUE
            ELSE PrintT("REJECT|" \o ToString(recno) \o "|1|owed " \o Owed(Records[recno])))
Spec == Init /\ [][Next]_<<recno, done_>>
=============================================================================

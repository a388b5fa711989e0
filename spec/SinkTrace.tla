------------------------------- MODULE SinkTrace -----------------------------
(* Validates recorded events between the real writer and a faulty sink: "call", "offer" (the offset *)
(* in the correct output that the offered bytes continue, or a large number if they do not),        *)
(* "took", "intr", "fail", "ok" (with what has to be delivered by then), "err" (the error returned  *)
(* is the one of the sink), "wrong" (another error).                                                *)
EXTENDS Sink, TLC, Json
VARIABLES i, n, s
Sessions == ndJsonDeserialize("faults.ndjson")
Ev == Sessions[i].ev
Init == i \in 1..Len(Sessions) /\ n = 1 /\ s = Fresh
May(e) == CASE e.e = "call" -> MayCall(s)
            [] e.e = "offer" -> MayOffer(s, e.n)
            [] e.e \in {"took", "intr", "fail"} -> s.phase = "busy"
            [] e.e = "ok" -> MayReturn(s, TRUE, e.n)
            [] e.e = "err" -> MayReturn(s, FALSE, 0)
            [] OTHER -> FALSE
Then(e) == CASE e.e = "call" -> Called(s)
             [] e.e = "offer" -> s
             [] e.e = "took" -> Took(s, e.n)
             [] e.e = "intr" -> Interrupted(s)
             [] e.e = "fail" -> Failed(s)
             [] e.e = "ok" -> Returned(s, TRUE)
             [] OTHER -> Returned(s, FALSE)
Next ==
  /\ n <= Len(Ev)
  /\ IF May(Ev[n]) THEN s' = Then(Ev[n]) /\ n' = n + 1
     ELSE /\ PrintT("REJECT|" \o ToString(i) \o "|" \o ToString(n) \o "|" \o ToString(Ev[n]) \o " in " \o ToString(s))
          /\ n' = Len(Ev) + 2 /\ UNCHANGED s
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, n, s>>
=============================================================================

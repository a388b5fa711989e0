-------------------------------- MODULE SinkMC -------------------------------
(***************************************************************************)
(* A writer that makes the calls of a small output through a retrying      *)
(* write-all loop, against every behaviour of the sink; and prints the     *)
(* scripts of the sink for the real writer.                                *)
(***************************************************************************)
EXTENDS Sink, TLC, Json, SequencesExt
CONSTANTS LONG, PRINT
VARIABLES s, call, left, script, data
vars == <<s, call, left, script, data>>
\* how many bytes each call contributes, in one piece or several
Programs == {<<<<1>>, <<2>>, <<1, 1>>, <<1>>>>, <<<<1>>>>, <<<<3>>, <<2, 2>>>>, <<<<0>>, <<1, 0, 2>>>>}
VARIABLE prog
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
EndOf(n) == FoldLeft(LAMBDA a, c : a + Sum(c), 0, SubSeq(prog, 1, n))

Init == prog \in Programs /\ s = Fresh /\ call = 0 /\ left = <<>> /\ script = <<>> /\ data = <<>>
Start == /\ MayCall(s) /\ call < Len(prog)
         /\ call' = call + 1 /\ left' = prog[call + 1] /\ s' = Called(s) /\ UNCHANGED <<script, prog, data>>
\* the current piece is offered until it is taken
Skip == s.phase = "busy" /\ left # <<>> /\ left[1] = 0 /\ left' = Tail(left) /\ UNCHANGED <<s, call, script, prog, data>>
Write == /\ s.phase = "busy" /\ left # <<>> /\ left[1] > 0 /\ Len(script) < LONG
         /\ MayOffer(s, s.given)
         /\ \/ \E k \in 1..left[1] : /\ s' = Took(s, k) /\ left' = [left EXCEPT ![1] = @ - k]
                                     /\ script' = Append(script, k)
                                     /\ data' = data \o [j \in 1..k |-> s.given + j]
            \/ s' = Interrupted(s) /\ script' = Append(script, 100) /\ UNCHANGED <<left, data>>
            \/ s' = Failed(s) /\ script' = Append(script, 200) /\ UNCHANGED <<left, data>>
         /\ UNCHANGED <<call, prog>>
Return == /\ \/ s.phase = "busy" /\ left = <<>> /\ MayReturn(s, TRUE, EndOf(call)) /\ s' = Returned(s, TRUE)
             \/ MayReturn(s, FALSE, 0) /\ s' = Returned(s, FALSE)
          /\ UNCHANGED <<call, left, script, prog, data>>
Next == Start \/ Skip \/ Write \/ Return
Spec == Init /\ [][Next]_vars

\* what was delivered is always a prefix of the correct output, without gaps or repetitions
Prefix == data = [j \in 1..s.given |-> j] /\ s.given <= EndOf(Len(prog))
\* no call goes unanswered, and success means completeness
Complete == s.phase = "idle" => s.given = EndOf(call)
Stops == s.phase = "over" => Last(script) = 200
Answered == s.phase = "busy" /\ left = <<>> => MayReturn(s, TRUE, EndOf(call))
Inv == Prefix /\ Complete /\ Stops /\ Answered
=============================================================================

-------------------------------- MODULE Utf8MC -------------------------------
(***************************************************************************)
(* Every sequence of at most four bytes at the borders of the classes:     *)
(* the automaton accepts exactly the encodings of scalar values, with      *)
(* interruptions anywhere; and the failure or end of the source is never   *)
(* taken for a character, nor a failure for the end.                       *)
(***************************************************************************)
EXTENDS Utf8, TLC, Json
CONSTANT PRINT, Borders
VARIABLES bytes, r, intr, last
vars == <<bytes, r, intr, last>>

Table == [q \in States |-> [b \in 1..256 |-> [n |-> Step(q, b - 1), v |-> Bits(q, b - 1)]]]
ASSUME PRINT => PrintT(ToJson(Table))

Init == bytes = <<>> /\ r = Fresh /\ intr = 0 /\ last = "none"
Next == /\ r.out = "more"
        /\ \/ \E b \in Borders : /\ bytes' = Append(bytes, b) /\ r' = Byte(r, b) /\ last' = "byte" /\ UNCHANGED intr
           \/ intr < 2 /\ intr' = intr + 1 /\ r' = Interrupted(r) /\ last' = "intr" /\ UNCHANGED bytes
           \/ r' = Fault(r) /\ last' = "fail" /\ UNCHANGED <<bytes, intr>>
           \/ r' = Eof(r) /\ last' = "eof" /\ UNCHANGED <<bytes, intr>>
Spec == Init /\ [][Next]_vars

\* what a complete character must be
Sound == r.out = "char" => Scalar(r.cp) /\ bytes = Encode(r.cp) /\ last = "byte"

\* a sequence that is neither complete nor wrong can be completed: with some continuation bytes
Cont == {128, 143, 144, 159, 160, 191}
Completions(b) == {b} \cup {Append(b, x) : x \in Cont} \cup {b \o <<x, y>> : x, y \in Cont}
                      \cup {b \o <<x, y, z>> : x, y, z \in Cont}
Value(b) == CASE Len(b) = 1 -> b[1]
              [] Len(b) = 2 -> (b[1] % 32) * 64 + (b[2] % 64)
              [] Len(b) = 3 -> (b[1] % 16) * 4096 + (b[2] % 64) * 64 + (b[3] % 64)
              [] OTHER -> (b[1] % 8) * 262144 + (b[2] % 64) * 4096 + (b[3] % 64) * 64 + (b[4] % 64)
WellFormed(b) == Len(b) \in 1..4 /\ Scalar(Value(b)) /\ Encode(Value(b)) = b
Alive == r.out = "more" /\ bytes # <<>> => \E b \in Completions(bytes) : WellFormed(b)
Dead == r.out = "error" /\ last = "byte" => \A b \in Completions(bytes) : ~WellFormed(b)
Ends == r.out = "end" => last = "eof" /\ bytes = <<>>
Faults == last = "fail" => r.out = "error"
Truncated == last = "eof" /\ bytes # <<>> => r.out = "error"
Inv == Sound /\ Alive /\ Dead /\ Ends /\ Faults /\ Truncated
=============================================================================

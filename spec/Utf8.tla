--------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* Reading characters from a byte source: the automaton of well-formed     *)
(* UTF-8, and a reader that meets bytes, interruptions, failures and the   *)
(* end of the source.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

\* states between the bytes of a character: which bytes may follow, and where they lead
States == {"start", "c1", "c2", "c3", "e0", "ed", "f0", "f4"}
In(b, x, y) == b >= x /\ b <= y
Step(q, b) ==
  CASE q = "start" -> (CASE b < 128 -> "char"
                         [] In(b, 194, 223) -> "c1"
                         [] b = 224 -> "e0"
                         [] In(b, 225, 236) \/ In(b, 238, 239) -> "c2"
                         [] b = 237 -> "ed"
                         [] b = 240 -> "f0"
                         [] In(b, 241, 243) -> "c3"
                         [] b = 244 -> "f4"
                         [] OTHER -> "bad")
    [] q = "c1" -> IF In(b, 128, 191) THEN "char" ELSE "bad"
    [] q = "c2" -> IF In(b, 128, 191) THEN "c1" ELSE "bad"
    [] q = "c3" -> IF In(b, 128, 191) THEN "c2" ELSE "bad"
    [] q = "e0" -> IF In(b, 160, 191) THEN "c1" ELSE "bad"
    [] q = "ed" -> IF In(b, 128, 159) THEN "c1" ELSE "bad"
    [] q = "f0" -> IF In(b, 144, 191) THEN "c2" ELSE "bad"
    [] q = "f4" -> IF In(b, 128, 143) THEN "c2" ELSE "bad"
\* what a byte contributes to the code point
Bits(q, b) == IF q # "start" THEN b % 64
              ELSE IF b < 128 THEN b ELSE IF b < 224 THEN b % 32 ELSE IF b < 240 THEN b % 16 ELSE b % 8
Shift(q) == IF q = "start" THEN 0 ELSE 64

\* a read of one character: where it is, the code point so far, and its outcome
\*   "more": not finished; "char"; "end": the source has ended before the character began; "error"
Fresh == [q |-> "start", cp |-> 0, out |-> "more"]
Byte(r, b) ==
  LET q == Step(r.q, b)
      cp == r.cp * Shift(r.q) + Bits(r.q, b)
  IN CASE q = "bad" -> [r EXCEPT !.out = "error"]
       [] q = "char" -> [q |-> "start", cp |-> cp, out |-> "char"]
       [] OTHER -> [q |-> q, cp |-> cp, out |-> "more"]
Interrupted(r) == r
Fault(r) == [r EXCEPT !.out = "error"]
Eof(r) == [r EXCEPT !.out = IF r.q = "start" THEN "end" ELSE "error"]
Event(r, e) == CASE e.e = "byte" -> Byte(r, e.b)
                 [] e.e = "intr" -> Interrupted(r)
                 [] e.e = "fail" -> Fault(r)
                 [] OTHER -> Eof(r)

(* The same, declaratively. *)
Scalar(c) == c <= 1114111 /\ ~In(c, 55296, 57343)
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
=============================================================================

------------------------------ MODULE TextReader -----------------------------
(***************************************************************************)
(* The source of characters a format reads from.  A reader over text t has *)
(* delivered its first o characters.  A call is [a, w]: "next", "peek",    *)
(* "exact" of the string w, "until" a character of w, "place".  It leads   *)
(* to an offset (-1: the interface leaves it open) and has a result, a     *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

To(o, r) == [o |-> o, r |-> r]
Next1(t, o) == IF o < Len(t) THEN To(o + 1, <<t[o + 1]>>) ELSE To(o, <<>>)

\* lines end with a line feed; a tab counts for four columns and a carriage return for none
Place(t, o) ==
  FoldLeft(LAMBDA p, c : CASE c = 10 -> <<p[1] + 1, 0>>
                           [] c = 9 -> <<p[1], p[2] + 4>>
                           [] c = 13 -> p
                           [] OTHER -> <<p[1], p[2] + 1>>, <<0, 0>>, SubSeq(t, 1, o))

IsAt(t, o, w) == o + Len(w) <= Len(t) /\ SubSeq(t, o + 1, o + Len(w)) = w
Within(c, w) == \E i \in 1..Len(w) : w[i] = c
Stops(t, o, w) == {j \in (o + 1)..Len(t) : Within(t[j], w)}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

Call(t, o, a, w) ==
  CASE a = "next"  -> Next1(t, o)
    [] a = "peek"  -> To(o, Next1(t, o).r)
    [] a = "exact" -> IF IsAt(t, o, w) THEN To(o + Len(w), <<1>>) ELSE To(-1, <<0>>)
    \* what was read, and the character it was ended by; nothing if there is none
    [] a = "until" -> LET s == Stops(t, o, w)
                      IN IF s = {} THEN To(Len(t), <<>>)
                         ELSE To(Least(s), <<t[Least(s)]>> \o SubSeq(t, o + 1, Least(s) - 1))
    [] a = "place" -> To(o, Place(t, o))
=============================================================================

---------------------------- MODULE TextReaderMC -----------------------------
(* All readers over short texts: what they promise; and their transitions,  *)
(* printed for real readers to be driven along them.                        *)
EXTENDS TextReader, TLC, FiniteSets
CONSTANTS CHARS, LONG, PRINT
VARIABLES t, o, got

Words == UNION {[1..n -> CHARS] : n \in 0..2}
Texts == UNION {[1..n -> CHARS] : n \in 0..LONG}
Calls == {<<"next", <<>>>>, <<"peek", <<>>>>, <<"place", <<>>>>} \cup {<<a, w>> : a \in {"exact", "until"}, w \in Words}

\* the characters a call has taken from the text
Taken(c, r) == CASE c[1] = "next" -> r
                 [] c[1] = "exact" -> c[2]
                 [] c[1] = "until" -> IF r = <<>> THEN SubSeq(t, o + 1, Len(t)) ELSE Tail(r) \o <<r[1]>>
                 [] OTHER -> <<>>

Init == t \in Texts /\ o = 0 /\ got = <<>>
Next == /\ o >= 0
        /\ \E c \in Calls :
             LET x == Call(t, o, c[1], c[2])
             IN /\ PRINT => PrintT("T|" \o ToString(t) \o "|" \o ToString(o) \o "|" \o c[1] \o "|" \o ToString(c[2])
                                   \o "|" \o ToString(x.o) \o "|" \o ToString(x.r))
                /\ o' = x.o
                /\ got' = IF PRINT \/ x.o = -1 THEN got ELSE got \o Taken(c, x.r)
                /\ UNCHANGED t

\* what has been taken is what stands before the offset, whatever the calls were
Delivered == o >= 0 /\ ~PRINT => got = SubSeq(t, 1, o)
\* a peek is what the next call would give
Peeked == o >= 0 => Call(t, o, "peek", <<>>).r = Call(t, o, "next", <<>>).r
\* stopping at any character is reading the next one
Single == o >= 0 /\ o < Len(t) => Call(t, o, "until", <<t[o + 1]>>) = [o |-> o + 1, r |-> <<t[o + 1]>>]
\* an exact string is what as many calls give
Exactly == o >= 0 => \A w \in Words : Call(t, o, "exact", w).o >= 0 <=>
             \A i \in 1..Len(w) : o + i <= Len(t) /\ Call(t, o + i - 1, "next", <<>>).r = <<w[i]>>
\* places do not go backwards
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Onward == o > 0 => Before(Place(t, o - 1), Place(t, o))
Inv == Delivered /\ Peeked /\ Single /\ Exactly /\ Onward
Spec == Init /\ [][Next]_<<t, o, got>>
=============================================================================

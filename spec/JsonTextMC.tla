----------------------------- MODULE JsonTextMC ----------------------------
(* Checks the transducer of JsonText against a declarative grammar: a text is *)
(* accepted iff the grammar derives it, an error is raised exactly when no    *)
(* continuation can be derived any more, and comments are whitespace.         *)
EXTENDS JsonText

CONSTANTS Alphabet, N, WithComments, PrefixName

(* -- The grammar, as predicates over sequences of classes. ----------------- *)
Sub(w, i, j) == SubSeq(w, i, j)
RECURSIVE StripL(_)
StripL(w) == IF w # <<>> /\ Head(w) \in WS THEN StripL(Tail(w)) ELSE w
RECURSIVE StripR(_)
StripR(w) == IF w # <<>> /\ w[Len(w)] \in WS THEN StripR(Sub(w, 1, Len(w) - 1)) ELSE w
Strip(w) == StripR(StripL(w))

AllIn(w, S) == \A i \in 1..Len(w) : w[i] \in S
IsInt(w)  == /\ w # <<>>
             /\ \/ w = <<"z0">>
                \/ w[1] \in Dig19 /\ AllIn(Tail(w), Digits)
IsFrac(w) == Len(w) >= 2 /\ w[1] = "dt" /\ AllIn(Tail(w), Digits)
IsExp(w)  == /\ Len(w) >= 2 /\ w[1] \in {"xe", "xE"}
             /\ LET d == IF w[2] \in {"pl", "mi"} THEN Sub(w, 3, Len(w)) ELSE Tail(w)
                IN  d # <<>> /\ AllIn(d, Digits)
IsNumber(w) ==
  LET u == IF w # <<>> /\ w[1] = "mi" THEN Tail(w) ELSE w IN
  \E i \in 0..Len(u) : \E j \in i..Len(u) :
     /\ IsInt(Sub(u, 1, i))
     /\ (i = j \/ IsFrac(Sub(u, i + 1, j)))
     /\ (j = Len(u) \/ IsExp(Sub(u, j + 1, Len(u))))

Lits == {<<"xt", "xr", "xu", "xe">>, <<"xf", "xa", "xl", "xs", "xe">>, <<"xn", "xu", "xl", "xl">>}

(* The inside of a string: a sequence of plain characters, short escapes,     *)
(* \uXXXX outside the surrogates, and surrogate pairs.                        *)
Unit(w) == Len(w) = 6 /\ w[1] = "bs" /\ w[2] = "xu" /\ AllIn(Sub(w, 3, 6), Hex)
High(w) == Unit(w) /\ w[3] = "xd" /\ w[4] \in HexHi
Low(w)  == Unit(w) /\ w[3] = "xd" /\ w[4] \in HexLo
RECURSIVE IsChars(_)
IsChars(w) ==
  \/ w = <<>>
  \/ w[1] \in Classes \ (Ctl \cup {"qt", "bs"}) /\ IsChars(Tail(w))
  \/ Len(w) >= 2 /\ w[1] = "bs" /\ EscCode(w[2]) # "no" /\ IsChars(Sub(w, 3, Len(w)))
  \/ /\ Len(w) >= 6
     /\ LET u == Sub(w, 1, 6) IN Unit(u) /\ ~High(u) /\ ~Low(u)
     /\ IsChars(Sub(w, 7, Len(w)))
  \/ /\ Len(w) >= 12
     /\ High(Sub(w, 1, 6)) /\ Low(Sub(w, 7, 12))
     /\ IsChars(Sub(w, 13, Len(w)))
IsString(w) == Len(w) >= 2 /\ w[1] = "qt" /\ w[Len(w)] = "qt" /\ IsChars(Sub(w, 2, Len(w) - 1))

RECURSIVE IsText(_), IsItems(_), IsEntries(_)
IsText(w) ==   \* a value with whitespace around it
  LET v == Strip(w) IN
  \/ IsNumber(v) \/ v \in Lits \/ IsString(v)
  \/ /\ Len(v) >= 2 /\ v[1] = "lb" /\ v[Len(v)] = "rb"
     /\ LET b == Sub(v, 2, Len(v) - 1) IN Strip(b) = <<>> \/ IsItems(b)
  \/ /\ Len(v) >= 2 /\ v[1] = "lc" /\ v[Len(v)] = "rc"
     /\ LET b == Sub(v, 2, Len(v) - 1) IN Strip(b) = <<>> \/ IsEntries(b)
IsItems(b) ==
  \/ IsText(b)
  \/ \E i \in 1..Len(b) : /\ b[i] = "cm" /\ IsText(Sub(b, 1, i - 1))
                          /\ IsItems(Sub(b, i + 1, Len(b)))
IsEntry(b) == \E i \in 1..Len(b) : /\ b[i] = "co" /\ IsString(Strip(Sub(b, 1, i - 1)))
                                   /\ IsText(Sub(b, i + 1, Len(b)))
IsEntries(b) ==
  \/ IsEntry(b)
  \/ \E i \in 1..Len(b) : /\ b[i] = "cm" /\ IsEntry(Sub(b, 1, i - 1))
                          /\ IsEntries(Sub(b, i + 1, Len(b)))

(* Replacing every comment (outside strings) by one space; <<"bad">> when a   *)
(* comment is malformed.                                                      *)
RECURSIVE EndLine(_), EndBlock(_), InStr(_), Uncomment(_)
EndLine(w)  == IF w = <<>> THEN <<"bad">> ELSE IF w[1] = "nl" THEN Tail(w) ELSE EndLine(Tail(w))
EndBlock(w) == IF Len(w) < 2 THEN <<"bad">>
               ELSE IF w[1] = "st" /\ w[2] = "sl" THEN Sub(w, 3, Len(w)) ELSE EndBlock(Tail(w))
InStr(w)    == \* the rest of a string, then the rest of the text
  IF w = <<>> THEN <<>>
  ELSE IF w[1] = "qt" THEN <<"qt">> \o Uncomment(Tail(w))
  ELSE IF w[1] = "bs" /\ Len(w) >= 2 THEN Sub(w, 1, 2) \o InStr(Sub(w, 3, Len(w)))
  ELSE <<w[1]>> \o InStr(Tail(w))
Uncomment(w) ==
  IF w = <<>> THEN <<>>
  ELSE IF w[1] = "qt" THEN <<"qt">> \o InStr(Tail(w))
  ELSE IF w[1] # "sl" THEN <<w[1]>> \o Uncomment(Tail(w))
  ELSE IF Len(w) < 2 THEN <<"bad">>
  ELSE IF w[2] = "sl" THEN <<"sp">> \o (LET r == EndLine(Sub(w, 3, Len(w))) IN
                                        IF r = <<"bad">> THEN r ELSE Uncomment(r))
  ELSE IF w[2] = "st" THEN <<"sp">> \o (LET r == EndBlock(Sub(w, 3, Len(w))) IN
                                        IF r = <<"bad">> THEN r ELSE Uncomment(r))
  ELSE <<"bad">>
Plain(w) == IF WithComments THEN Uncomment(w) ELSE w

(* -- The machine run on every text over the alphabet. ---------------------- *)
VARIABLES w, cfg
Prefix == CASE PrefixName = "none" -> <<>>
            [] PrefixName = "escape" -> <<"qt", "bs", "xu", "xd">>
            [] PrefixName = "key" -> <<"lc", "qt", "bs">>
Init == w = Prefix /\ cfg = Run(Start, Prefix, WithComments)
Next == /\ Len(w) < N + Len(Prefix) /\ cfg.q # "X"
        /\ \E c \in Alphabet : w' = Append(w, c) /\ cfg' = Apply(cfg, c, WithComments)

Sound      == Accepts(cfg) <=> IsText(Plain(w))
Viable     == (cfg.q # "X" /\ ~Doomed(cfg.q)) =>
                 LET f == Run(cfg, Complete(cfg), WithComments) IN
                 Accepts(f) /\ IsText(Plain(w \o Complete(cfg)))
\* used to follow a single escape (pair) only
Escaping   == Len(w) <= Len(Prefix) \/ cfg.q # "v.str"
\* an error stays an error whatever follows (one more character is enough to see:
\* the grammar is checked on every extension within the bound)
Dead       == cfg.q = "X" => \A c \in Alphabet : ~IsText(Plain(Append(w, c)))
=============================================================================

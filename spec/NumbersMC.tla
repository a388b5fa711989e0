------------------------------ MODULE NumbersMC ------------------------------
(***************************************************************************)
(* A reader that takes a literal digit by digit, as an accumulator of      *)
(* bounded width does, against what Numbers says: on all literals of the   *)
(* bound and small ranges, computed with TLC's own integers.               *)
(***************************************************************************)
EXTENDS Numbers, TLC
CONSTANTS MAXLEN, MAXEXP, DIGITS

\* ranges: [lo, hi] with lo <= 0
Ranges == {<<0, 7>>, <<0, 15>>, <<0, 99>>, <<0, 100>>, <<8, 7>>, <<128, 127>>, <<0, 255>>, <<12, 25>>, <<0, 1000>>}

VARIABLES phase,  \* "start", "int", "frac", "exp", "end"
          lit, acc, shift, over, rg
vars == <<phase, lit, acc, shift, over, rg>>

Init == /\ phase = "start"
        /\ lit \in {[neg |-> b, int |-> <<>>, frac |-> <<>>, es |-> "none", exp |-> <<>>] : b \in BOOLEAN}
        /\ acc = 0 /\ shift = 0 /\ over = FALSE
        /\ rg \in Ranges

Limit == IF lit.neg THEN rg[1] ELSE rg[2]
\* the accumulator takes a digit; it may give up as soon as it exceeds its width, which is that of
\* an unsigned type that holds the range
Width == Max2(rg[1], rg[2])
Push(x) == /\ acc' = IF over \/ acc * 10 + x > Width THEN acc ELSE acc * 10 + x
           /\ over' = (over \/ acc * 10 + x > Width)
Room == Len(lit.int) + Len(lit.frac) < MAXLEN
ReadInt == /\ phase \in {"start", "int"} /\ Room
           /\ ~(phase = "int" /\ lit.int = <<0>>)
           /\ \E x \in DIGITS : lit' = [lit EXCEPT !.int = Append(@, x)] /\ Push(x)
           /\ phase' = "int" /\ UNCHANGED <<shift, rg>>
ReadFrac == /\ phase \in {"int", "frac"} /\ Room
            /\ \E x \in DIGITS : lit' = [lit EXCEPT !.frac = Append(@, x)] /\ Push(x)
            /\ phase' = "frac" /\ shift' = shift - 1 /\ UNCHANGED rg
ReadExp == /\ phase \in {"int", "frac"}
           /\ \E n \in 0..MAXEXP, s \in {"", "+", "-"} :
                /\ lit' = [lit EXCEPT !.es = s, !.exp = <<n>>]
                /\ shift' = IF s = "-" THEN shift - n ELSE shift + n
           /\ phase' = "exp" /\ UNCHANGED <<acc, over, rg>>
Next == ReadInt \/ ReadFrac \/ ReadExp
Spec == Init /\ [][Next]_vars

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
\* the reader's answer: <<>> is an error
Answer ==
  IF over THEN <<>>
  ELSE IF shift >= 0
       THEN IF acc * Pow10(shift) <= Limit THEN <<acc * Pow10(shift)>> ELSE <<>>
       ELSE IF acc % Pow10(-shift) # 0 \/ acc \div Pow10(-shift) > Limit THEN <<>>
            ELSE <<acc \div Pow10(-shift)>>

ToDigits(n) == Digits(MulAdd(<<>>, 1, n))
Complete == phase \in {"int", "frac", "exp"}
Sound == Complete =>
  LET v == Verdict(lit, ToDigits(rg[1]), ToDigits(rg[2])) IN
  /\ v = "accept" => Answer # <<>>
  /\ v = "reject" => Answer = <<>>
  /\ Answer # <<>> => IntResult(Value(lit)) = [neg |-> lit.neg /\ Answer[1] # 0, d |-> ToDigits(Answer[1])]

\* the arithmetic on digit sequences, against TLC's integers
DigitsOf(n) == ToDigits(n)
ASSUME \A n \in {0, 1, 9, 10, 99, 9999, 10000, 10001, 123456789} : ToInt(DigitsOf(n)) = n
ASSUME \A n \in 0..30 : ToInt(Digits(Pow2(n))) = 2 ^ n
ASSUME \A n \in 0..9 : ToInt(Digits(MulPow5(<<1>>, n))) = 5 ^ n
ASSUME \A n \in 1..1100 : Succ(Pred(DigitsOf(n))) = DigitsOf(n) /\ Less(Pred(DigitsOf(n)), DigitsOf(n))
ASSUME \A a, b \in 0..120 : Less(DigitsOf(a), DigitsOf(b)) <=> a < b
ASSUME Expansion(FALSE, <<-1>>) = [neg |-> FALSE, d |-> <<5>>, p |-> -1]
ASSUME Expansion(TRUE, <<3, 1, -2>>) = [neg |-> TRUE, d |-> <<1, 0, 2, 5>>, p |-> -2]
ASSUME Digits(Pow2(64)) = <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>
ASSUME LargestOf["i16"] = <<3, 2, 7, 6, 7>> /\ SmallestOf["i16"] = <<3, 2, 7, 6, 8>>
\* every way of writing a value denotes it
ASSUME \A lead \in 0..2, trail \in 0..2, at \in 0..3, p \in {-3, 0, 2}, d \in {<<1>>, <<1, 2>>, <<5, 0, 7>>},
          sign \in {"none", "", "+"} :
         LET l == Written(TRUE, d, p, lead, trail, at, sign, 1)
         IN (at <= lead + Len(d) + trail /\ WellFormed(l)) => Value(l) = Normal(TRUE, d, p)
=============================================================================

------------------------------- MODULE FloatsMC ------------------------------
(***************************************************************************)
(* Floats against rounding computed by distances with TLC's own integers:  *)
(* all literals of the bound in all small formats; and that a literal with *)
(* enough digits pins a float down.                                        *)
(***************************************************************************)
EXTENDS Floats, TLC
CONSTANTS MAXDIGITS, PLACES, MAXEXP, DIGITS
MINEXP == -PLACES

Formats == {f \in {[p |-> a, low |-> b, top |-> c] : a \in 2..4, b \in {-3, -2, 0}, c \in {2, 3}} : f.top - f.low >= f.p}
\* all magnitudes of a format, by the sums of powers of two
AllFloats(f) == {ks \in UNION {{SetToSortSeq(s, LAMBDA a, b : a > b) : s \in SUBSET (f.low..f.top)}} : IsFloat(f, ks)}
FloatsOf == [f \in Formats |-> AllFloats(f)]

VARIABLES fmt, dig, ten
vars == <<fmt, dig, ten>>
Init == fmt \in Formats /\ dig = <<>> /\ ten \in MINEXP..MAXEXP
Next == Len(dig) < MAXDIGITS /\ \E a \in DIGITS : dig' = Append(dig, a) /\ UNCHANGED <<fmt, ten>>
Spec == Init /\ [][Next]_vars

\* everything times 10^(-MINEXP) * 2^4 is an integer
Scale == 10 ^ (-MINEXP)
IntOfValue == FoldLeft(LAMBDA a, b : a * 10 + b, 0, dig) * 10 ^ (ten - MINEXP) * 16
IntOfFloat(ks) == FoldLeft(LAMBDA a, k : a + Scale * 2 ^ (k + 4), 0, ks)
Distance(ks) == LET a == IntOfValue - IntOfFloat(ks) IN IF a < 0 THEN -a ELSE a
\* the value one step after the largest float stands for infinity
Inf == <<fmt.top + 1>>
Candidates == FloatsOf[fmt] \cup {Inf}
Best == {ks \in Candidates : \A o \in Candidates : Distance(ks) <= Distance(o)}
\* the fraction's last place is clear
EvenOne(ks) == ks = Inf \/ ks = <<>> \/ Last(ks) > Max2(ks[1] - fmt.p + 1, fmt.low)
Wanted == IF Cardinality(Best) = 1 THEN Best ELSE {ks \in Best : EvenOne(ks)}
V == Normal(FALSE, dig, ten)
Given == {ks \in FloatsOf[fmt] : Rounds(fmt, V, Finite(FALSE, ks))}
         \cup (IF Rounds(fmt, V, Infinite(FALSE)) THEN {Inf} ELSE {})

\* beyond infinity's stand-in everything is infinite
RoundsRight == IntOfValue > IntOfFloat(Inf) \/ Given = Wanted
ExactlyOne == Cardinality(Given) = 1
BeyondInfinite == IntOfValue > IntOfFloat(Inf) => Given = {Inf}
NextIsNext == dig # <<>> \/ ten # MINEXP \/
  \A ks \in FloatsOf[fmt] :
    LET n == NextFloat(fmt, ks)
        bigger == {o \in Candidates : IntOfFloat(o) > IntOfFloat(ks)}
        m == CHOOSE o \in bigger : \A q \in bigger : IntOfFloat(o) <= IntOfFloat(q)
    IN n = (IF m = Inf THEN <<>> ELSE m)
\* what is rounded to the one is less than what is rounded to the other
ExactIsItself == dig # <<>> \/ ten # MINEXP \/
  \A ks \in FloatsOf[fmt] : Rounds(fmt, Expansion(FALSE, ks), Finite(FALSE, ks))
CompareIsOrder == \A ks \in FloatsOf[fmt] :
  Compare(V, Expansion(FALSE, ks)) =
    (IF IntOfValue < IntOfFloat(ks) THEN -1 ELSE IF IntOfValue > IntOfFloat(ks) THEN 1 ELSE 0)
=============================================================================

-------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Rounding to the nearest float, ties to even: which float a literal has  *)
(* to be read as, for every literal, and what a written literal has to be  *)
(* for the float to survive.                                               *)
(*                                                                         *)
(* A format is [p, low, top]: the number of significant bits and the least *)
(* and the greatest exponent of a bit.  A float is [neg, ks, inf]: ks are  *)
(* the exponents of the powers of two its magnitude is the sum of, in      *)
(* descending order.                                                       *)
(***************************************************************************)
EXTENDS Numbers

Format(t) == [p |-> Precision(t), low |-> LowExp(t), top |-> TopExp(t)]

\* limbs of n > 0 minus one
Less1(x) ==
  LET k == CHOOSE k \in 1..Len(x) : x[k] # 0 /\ \A i \in 1..k - 1 : x[i] = 0
      y == [i \in 1..Len(x) |-> IF i < k THEN BASE - 1 ELSE IF i = k THEN x[i] - 1 ELSE x[i]]
  IN IF Last(y) = 0 THEN Front(y) ELSE y
\* the magnitude n * 2^k as a decimal
Scaled(x, k) == IF k >= 0 THEN Normal(FALSE, Digits(MulPow2(x, k)), 0)
                ELSE Normal(FALSE, Digits(MulPow5(x, -k)), k)

\* magnitudes: -1, 0 or 1
Compare(a, b) ==
  IF a.d = <<>> \/ b.d = <<>> THEN (IF a.d = b.d THEN 0 ELSE IF a.d = <<>> THEN -1 ELSE 1)
  ELSE IF Len(a.d) + a.p # Len(b.d) + b.p THEN (IF Len(a.d) + a.p < Len(b.d) + b.p THEN -1 ELSE 1)
  ELSE LET n == Min2(Len(a.d), Len(b.d))
           c == FoldLeft(LAMBDA o, i : IF o # 0 THEN o
                                       ELSE IF a.d[i] < b.d[i] THEN -1 ELSE IF a.d[i] > b.d[i] THEN 1 ELSE 0,
                         0, [i \in 1..n |-> i])
       IN IF c # 0 THEN c
          ELSE IF Len(a.d) < Len(b.d) THEN -1 ELSE IF Len(a.d) > Len(b.d) THEN 1 ELSE 0

IsFloat(f, ks) ==
  /\ \A i \in 1..Len(ks) - 1 : ks[i] > ks[i + 1]
  /\ ks = <<>> \/ (ks[1] <= f.top /\ Last(ks) >= f.low /\ ks[1] - Last(ks) < f.p)
\* the exponent of the last place of a float
UlpExp(f, ks) == IF ks = <<>> THEN f.low ELSE Max2(ks[1] - f.p + 1, f.low)
\* the float in units of its last place
Units(f, ks) == IF ks = <<>> THEN <<>> ELSE MulPow2(Horner(ks), Last(ks) - UlpExp(f, ks))
\* halfway to the next float, and to the previous one
Above(f, ks) == Scaled(MulAdd(Units(f, ks), 2, 1), UlpExp(f, ks) - 1)
\* below a power of two floats are closer together
Below(f, ks) ==
  IF Len(ks) = 1 /\ UlpExp(f, ks) > f.low
  THEN Scaled(Less1(MulAdd(Units(f, ks), 4, 0)), UlpExp(f, ks) - 2)
  ELSE Scaled(Less1(MulAdd(Units(f, ks), 2, 0)), UlpExp(f, ks) - 1)
Even(f, ks) == ks = <<>> \/ Last(ks) > UlpExp(f, ks)
LargestFloat(f) == [i \in 1..f.p |-> f.top + 1 - i]

Finite(neg, ks) == [neg |-> neg, ks |-> ks, inf |-> FALSE]
Infinite(neg) == [neg |-> neg, ks |-> <<>>, inf |-> TRUE]
\* whether x is what a literal of value v is rounded to
Rounds(f, v, x) ==
  /\ x.neg = v.neg
  /\ IF x.inf THEN Compare(v, Above(f, LargestFloat(f))) >= 0
     ELSE /\ IsFloat(f, x.ks)
          /\ LET hi == Compare(v, Above(f, x.ks)) IN hi < 0 \/ (hi = 0 /\ Even(f, x.ks))
          /\ x.ks = <<>> \/ LET lo == Compare(v, Below(f, x.ks)) IN lo > 0 \/ (lo = 0 /\ Even(f, x.ks))
Nearest(t, l, x) == Rounds(Format(t), Value(l), x)

\* the next float
RECURSIVE AddPower(_, _)
AddPower(ks, k) == IF ks # <<>> /\ Last(ks) = k THEN AddPower(Front(ks), k + 1) ELSE Append(ks, k)
NextFloat(f, ks) == LET n == AddPower(ks, UlpExp(f, ks)) IN IF n[1] > f.top THEN <<>> ELSE n
NextUp(f, x) == LET n == NextFloat(f, x.ks) IN IF n = <<>> THEN Infinite(x.neg) ELSE Finite(x.neg, n)
=============================================================================

------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* What a number literal denotes, and which answers a reader may give when *)
(* it reads the literal as an integer or as a float.                       *)
(*                                                                         *)
(* A literal is [neg, int, frac, es, exp]: whether it has a minus sign,    *)
(* the digits before and after the point, the sign of the exponent ("none" *)
(* if there is no exponent, "" if it has no sign) and its digits.          *)
(* Magnitudes are unbounded: a value is a sign, a digit sequence without   *)
(* leading or trailing zeros and a power of ten.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Zeros(n) == [i \in 1..n |-> 0]

(* Unbounded naturals: little-endian limbs of four decimal digits *)
BASE == 10000
MulAdd(x, k, c) ==
  LET step(a, l) == LET v == l * k + a.c IN [o |-> Append(a.o, v % BASE), c |-> v \div BASE]
      r == FoldLeft(step, [o |-> <<>>, c |-> c], x)
      RECURSIVE Rest(_, _)
      Rest(o, v) == IF v = 0 THEN o ELSE Rest(Append(o, v % BASE), v \div BASE)
  IN Rest(r.o, r.c)
\* x * b^n, where chunk = b^step is at most 65536
MulPow(x, b, n, step, chunk) ==
  LET y == FoldLeft(LAMBDA a, i : MulAdd(a, chunk, 0), x, [i \in 1..n \div step |-> i])
  IN FoldLeft(LAMBDA a, i : MulAdd(a, b, 0), y, [i \in 1..n % step |-> i])
MulPow2(x, n) == MulPow(x, 2, n, 15, 32768)
MulPow5(x, n) == MulPow(x, 5, n, 6, 15625)

LimbDigits(l) == <<l \div 1000, (l \div 100) % 10, (l \div 10) % 10, l % 10>>
\* the number of zeros in front of the first other digit, and behind the last
Lead(d)  == CHOOSE k \in 0..Len(d) : (k = Len(d) \/ d[k + 1] # 0) /\ \A i \in 1..k : d[i] = 0
Trail(d) == CHOOSE k \in 0..Len(d) : (k = Len(d) \/ d[Len(d) - k] # 0) /\ \A i \in 1..k : d[Len(d) + 1 - i] = 0
NoLead(d) == SubSeq(d, 1 + Lead(d), Len(d))
Digits(x) == NoLead(FoldLeft(LAMBDA o, l : LimbDigits(l) \o o, <<>>, x))
Pow2(n) == MulPow2(<<1>>, n)

\* digits without leading zeros: comparison, successor, predecessor
Less(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
RECURSIVE Succ(_)
Succ(d) == IF d = <<>> THEN <<1>>
           ELSE IF Last(d) < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE Append(Succ(Front(d)), 0)
RECURSIVE PredDigits(_)
PredDigits(d) == IF Last(d) > 0 THEN [d EXCEPT ![Len(d)] = @ - 1] ELSE Append(PredDigits(Front(d)), 9)
Pred(d) == NoLead(PredDigits(d))

(* Values *)
NoTrail(v) == LET k == Trail(v.d) IN [v EXCEPT !.d = SubSeq(@, 1, Len(@) - k), !.p = @ + k]
\* sign * digits * 10^p
Normal(neg, d, p) ==
  LET v == NoTrail([neg |-> neg, d |-> NoLead(d), p |-> p])
  IN IF v.d = <<>> THEN [v EXCEPT !.p = 0] ELSE v

ToInt(d) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
\* the exponent of a literal; literals with exponents of more than nine digits are out of scope
InScope(l) == Len(NoLead(l.exp)) <= 9
Exponent(l) == IF l.es = "-" THEN -ToInt(l.exp) ELSE ToInt(l.exp)
Value(l) == Normal(l.neg, l.int \o l.frac, Exponent(l) - Len(l.frac))

(* Integer types *)
Type(name, bits, signed) == [name |-> name, bits |-> bits, signed |-> signed]
IntTypes == {Type("u8", 8, FALSE), Type("u16", 16, FALSE), Type("u32", 32, FALSE), Type("u64", 64, FALSE),
             Type("u128", 128, FALSE), Type("i8", 8, TRUE), Type("i16", 16, TRUE), Type("i32", 32, TRUE),
             Type("i64", 64, TRUE), Type("i128", 128, TRUE)}
TypeNamed == [n \in {t.name : t \in IntTypes} |-> CHOOSE t \in IntTypes : t.name = n]
Largest(t) == Pred(Digits(Pow2(IF t.signed THEN t.bits - 1 ELSE t.bits)))
\* the magnitude of the smallest value
Smallest(t) == IF t.signed THEN Digits(Pow2(t.bits - 1)) ELSE <<>>
LargestOf == [n \in DOMAIN TypeNamed |-> Largest(TypeNamed[n])]
SmallestOf == [n \in DOMAIN TypeNamed |-> Smallest(TypeNamed[n])]

\* A value as an integer: no digits after the point; too large for any type if it has many digits
IsInteger(v) == v.p >= 0
IntDigits(v) == v.d \o Zeros(v.p)
InRangeOf(v, lo, hi) ==
  /\ IsInteger(v)
  /\ Len(v.d) + v.p <= Max2(Len(hi), Len(lo))
  /\ IF v.neg THEN ~Less(lo, IntDigits(v)) ELSE ~Less(hi, IntDigits(v))
\* a literal that any reader of integers has to accept if its value is in range
Plain(l) == l.frac = <<>> /\ l.es # "-"
\* what reading a literal as an integer may give: exactly the value and, unless the literal is
\* a plain one, alternatively an error; otherwise only an error
Verdict(l, lo, hi) ==
  IF ~InRangeOf(Value(l), lo, hi) THEN "reject"
  ELSE IF Plain(l) THEN "accept" ELSE "either"
TypeVerdict(l, name) == Verdict(l, SmallestOf[name], LargestOf[name])
\* the integer that is delivered: zero has no sign
IntResult(v) == [neg |-> v.neg /\ v.d # <<>>, d |-> IntDigits(v)]

(* Floats: sums of powers of two *)
\* ks is a sequence of exponents, decreasing; the value is the sum of 2^k
Horner(ks) == FoldLeft(LAMBDA x, i : MulAdd(MulPow2(x, ks[i - 1] - ks[i] - 1), 2, 1), <<1>>,
                       [j \in 1..Len(ks) - 1 |-> j + 1])
Expansion(neg, ks) ==
  IF ks = <<>> THEN Normal(neg, <<>>, 0)
  ELSE LET m == Horner(ks)
           k == Last(ks)
       IN IF k >= 0 THEN Normal(neg, Digits(MulPow2(m, k)), 0)
          ELSE Normal(neg, Digits(MulPow5(m, -k)), k)
FloatTypes == {"f32", "f64"}
Precision(t) == IF t = "f32" THEN 24 ELSE 53
TopExp(t)    == IF t = "f32" THEN 127 ELSE 1023
LowExp(t)    == IF t = "f32" THEN -149 ELSE -1074
Representable(t, ks) ==
  ks = <<>> \/ (ks[1] <= TopExp(t) /\ Last(ks) >= LowExp(t) /\ ks[1] - Last(ks) < Precision(t))

(* Ways of writing the value neg, d * 10^p: `lead` zeros in front of the digits (after a point), *)
(* `trail` zeros behind them, the point after the first `at` of all these digits (at = 0: before  *)
(* them, behind a single zero).                                                                   *)
Written(neg, d, p, lead, trail, at, sign, pad) ==
  LET all == Zeros(lead) \o d \o Zeros(trail)
      int == SubSeq(all, 1, at)
      frac == SubSeq(all, at + 1, Len(all))
      e == p - trail + Len(frac)
      RECURSIVE Dec(_)
      Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
  IN [neg |-> neg,
      int |-> IF int = <<>> THEN <<0>> ELSE int,
      frac |-> frac,
      es |-> IF e < 0 THEN "-" ELSE IF e = 0 /\ sign = "none" THEN "none" ELSE IF sign = "none" THEN "" ELSE sign,
      exp |-> IF e = 0 /\ sign = "none" THEN <<>> ELSE Zeros(pad) \o Dec(IF e < 0 THEN -e ELSE e)]
\* the digits before the point do not start with a superfluous zero
WellFormed(l) ==
  /\ l.int # <<>> /\ (Len(l.int) > 1 => l.int[1] # 0)
  /\ (l.es # "none" => l.exp # <<>>)
=============================================================================

------------------------------ MODULE NumbersVec -----------------------------
(***************************************************************************)
(* Prints literals at the borders of every type, with what Numbers allows  *)
(* a reader to answer.                                                     *)
(***************************************************************************)
EXTENDS Numbers, TLC, Json
CONSTANT WHICH  \* "int" or "float"

Text(l) ==
  LET S(d) == FoldLeft(LAMBDA o, x : o \o ToString(x), "", d)
  IN (IF l.neg THEN "-" ELSE "") \o S(l.int) \o (IF l.frac = <<>> THEN "" ELSE "." \o S(l.frac))
     \o (IF l.es = "none" THEN "" ELSE "e" \o l.es \o S(l.exp))
DigitText(d) == IF d = <<>> THEN "0" ELSE FoldLeft(LAMBDA o, x : o \o ToString(x), "", d)

Lit(neg, int, frac, es, exp) == [neg |-> neg, int |-> int, frac |-> frac, es |-> es, exp |-> exp]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
NonZero(d) == IF d = <<>> THEN <<0>> ELSE d

(* integers *)
Borders == UNION {{LargestOf[n], Succ(LargestOf[n]), Pred(LargestOf[n])} : n \in DOMAIN TypeNamed}
           \cup {Succ(SmallestOf[n]) : n \in DOMAIN TypeNamed}
           \cup {SmallestOf[n] : n \in {t.name : t \in {x \in IntTypes : x.signed}}}
Smalls == {Digits(MulAdd(<<>>, 1, n)) : n \in {0, 1, 2, 9, 10, 11, 19, 20, 25, 26, 99, 100, 101, 120, 130, 200, 250, 260, 999, 1000}}
Tens == {<<1>> \o Zeros(k) : k \in 1..40}
\* how a value is written, plainly and otherwise
Forms(neg, d) ==
  LET n == NonZero(d) IN
  {Lit(neg, n, <<>>, "none", <<>>), Lit(neg, n, <<>>, "", <<0>>), Lit(neg, n, <<>>, "+", <<0>>),
   Lit(neg, n, <<>>, "", <<0, 0, 0>>), Lit(neg, n, <<>>, "-", <<0>>), Lit(neg, n, <<0>>, "none", <<>>),
   Lit(neg, n, <<0, 0, 0>>, "", <<0>>), Lit(neg, n, <<1>>, "none", <<>>), Lit(neg, n, <<5>>, "", <<1>>),
   Lit(neg, n, <<0, 0>>, "+", <<2>>), Lit(neg, n \o <<0>>, <<>>, "-", <<1>>), Lit(neg, n, <<>>, "-", <<1>>),
   Lit(neg, <<0>>, Zeros(2) \o n, "", Dec(Len(n) + 2)), Lit(neg, n, <<>>, "", <<1>>)}
\* trailing zeros as an exponent
Shifted(neg, d) ==
  {Lit(neg, SubSeq(d, 1, Len(d) - k), <<>>, es, Zeros(pad) \o Dec(k)) :
     k \in {k \in 1..Len(d) - 1 : \A j \in (Len(d) - k + 1)..Len(d) : d[j] = 0}, es \in {"", "+"}, pad \in {0, 1}}
\* the largest value of each type, cut off and filled up with an exponent: the last that is in
\* range and the first that is not
Cuts ==
  UNION {LET d == LargestOf[n] IN
         UNION {{Lit(neg, SubSeq(d, 1, Len(d) - k), <<>>, "", Dec(k)),
                 Lit(neg, Succ(SubSeq(d, 1, Len(d) - k)), <<>>, "", Dec(k)),
                 Lit(neg, SubSeq(d, 1, Len(d) - k), SubSeq(d, Len(d) - k + 1, Len(d)), "", Dec(k)),
                 Lit(neg, SubSeq(d, 1, Len(d) - k), SubSeq(d, Len(d) - k + 1, Len(d)) \o <<0>>, "", Dec(k))} :
                k \in 1..Len(d) - 1, neg \in BOOLEAN} : n \in DOMAIN TypeNamed}
ZeroForms(neg) ==
  {Lit(neg, <<0>>, f, es, e) : f \in {<<>>, <<0>>, Zeros(5), Zeros(40)}, es \in {"", "+", "-"},
                               e \in {<<0>>, <<1>>, <<5>>, <<3, 8>>, <<4, 0, 0>>, <<9, 9, 9, 9, 9>>, <<0, 0, 1>>}}
  \cup {Lit(neg, <<0>>, f, "none", <<>>) : f \in {<<>>, <<0>>, Zeros(5), Zeros(40)}}
Large(neg) == {Lit(neg, <<1>>, <<>>, es, e) : es \in {"", "+", "-"}, e \in {<<3, 8>>, <<3, 9>>, <<4, 0>>, <<1, 0, 0>>, <<9, 9, 9, 9, 9, 9>>}}
              \cup {Lit(neg, <<7>> \o Zeros(n), <<>>, "-", Dec(n)) : n \in {1, 2, 19, 38, 39, 60}}
IntLits ==
  UNION {UNION {Forms(neg, d) : d \in Borders \cup Smalls} \cup ZeroForms(neg) \cup Large(neg)
         \cup UNION {Shifted(neg, d) : d \in Tens \cup {Digits(MulAdd(<<>>, 1, n)) \o Zeros(k) : n \in {2, 3, 12, 25}, k \in {1, 3}}} : neg \in BOOLEAN}
  \cup Cuts
Names == <<"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128">>
ShowInt(l) ==
  \/ ~WellFormed(l) \/ ~InScope(l)
  \/ LET v == Value(l)
         vs == [i \in 1..10 |-> TypeVerdict(l, Names[i])]
     IN PrintT(ToJson([l |-> Text(l),
                       v |-> IF \A i \in 1..10 : vs[i] = "reject" THEN ""
                             ELSE (IF IntResult(v).neg THEN "-" ELSE "") \o DigitText(IntResult(v).d),
                       t |-> FoldLeft(LAMBDA o, x : o \o (CASE x = "accept" -> "a" [] x = "either" -> "e" [] OTHER -> "r"), "", vs)]))

(* floats *)
Ones(top, n) == [i \in 1..n |-> top + 1 - i]
Odd(top, n) == SelectSeq(Ones(top, n), LAMBDA k : (top - k) % 3 # 1 \/ k = top - n + 1)
Tops(t) == {TopExp(t), TopExp(t) - 1, 100, 64, 31, 10, 0, -1, -10, -60, -100, -126}
           \cup (IF t = "f64" THEN {-1022, 700, -700} ELSE {})
Widths(t) == {1, 2, 5, Precision(t) - 1, Precision(t)}
Low(t) == {<<LowExp(t)>>, <<LowExp(t) + 1>>, <<LowExp(t) + 1, LowExp(t)>>,
           Ones(LowExp(t) + Precision(t) - 2, Precision(t) - 1),
           Odd(LowExp(t) + Precision(t) - 2, Precision(t) - 1)}
Sums(t) == {x \in {Ones(top, n) : top \in Tops(t), n \in Widths(t)} \cup {Odd(top, n) : top \in Tops(t), n \in Widths(t)}
                  \cup Low(t) : Representable(t, x)}
Few == {<<0>>, <<-1>>, <<1, 0>>, <<3, 1>>, <<-3>>, <<6, 5, 2>>, <<-2, -10>>, <<13, 0, -4>>, <<20, 10, 3, -3>>}
Layouts(v, leads, trails, ats, signs, pads) ==
  UNION {LET n == lead + Len(v.d) + trail IN
         {Written(v.neg, v.d, v.p, lead, trail, Min2(at, n), sign, pad) : at \in ats, sign \in signs, pad \in pads} :
         lead \in leads, trail \in trails}
ShowFloat(ks, v, l) ==
  ~WellFormed(l) \/ ~InScope(l) \/
     (/\ Assert(v.d = <<>> \/ Value(l) = v, <<"layout", l, v>>)
      /\ PrintT(ToJson([l |-> Text(l), neg |-> l.neg, ks |-> ks,
                        t |-> (IF Representable("f32", ks) THEN "a" ELSE "r") \o (IF Representable("f64", ks) THEN "a" ELSE "r")])))
FewLayouts(v) == Layouts(v, {0, 1, 2, 9}, {0, 1, 8}, {0, 1, 2, 5, Len(v.d), Len(v.d) + 3, 1000}, {"none", ""}, {0})
ManyLayouts(v) ==
  Layouts(v, 0..4 \cup 20..36, {0}, {0}, {"none", "+"}, {0, 1})
  \cup Layouts(v, {0}, 0..40, {1, 2, 15, 1000}, {"none", "+"}, {0, 2})
  \cup Layouts(v, {0, 3}, {0, 4}, {0, 1, 1000}, {"none", "", "+"}, 0..12)
ZeroVal(neg) == [neg |-> neg, d |-> <<>>, p |-> 0]

ASSUME WHICH # "int" \/ \A l \in IntLits : ShowInt(l)
ASSUME WHICH # "float" \/
  /\ \A neg \in BOOLEAN :
       /\ \A ks \in Sums("f32") \cup Sums("f64") :
            LET v == Expansion(neg, ks) IN \A l \in FewLayouts(v) : ShowFloat(ks, v, l)
       /\ \A ks \in Few : LET v == Expansion(neg, ks) IN \A l \in ManyLayouts(v) : ShowFloat(ks, v, l)
       /\ \A l \in ZeroForms(neg) : ShowFloat(<<>>, ZeroVal(neg), l)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================

------------------------------ MODULE FloatsVec ------------------------------
(***************************************************************************)
(* Prints literals around the places where rounding changes, with the      *)
(* float that Floats says they are read as.                                *)
(***************************************************************************)
EXTENDS Floats, TLC, Json

Text(l) ==
  LET S(d) == FoldLeft(LAMBDA o, x : o \o ToString(x), "", d)
  IN (IF l.neg THEN "-" ELSE "") \o S(l.int) \o (IF l.frac = <<>> THEN "" ELSE "." \o S(l.frac))
     \o (IF l.es = "none" THEN "" ELSE "e" \o l.es \o S(l.exp))

Ones(top, n) == [i \in 1..n |-> top + 1 - i]
Odd(top, n) == SelectSeq(Ones(top, n), LAMBDA k : (top - k) % 3 # 1 \/ k = top - n + 1)
Tops(t) == {TopExp(t), 100, 64, 53, 31, 24, 10, 3, 0, -1, -10, -60, -126}
           \cup (IF t = "f64" THEN {-1022, 700, -700, -1000} ELSE {})
Low(t) == {<<>>, <<LowExp(t)>>, <<LowExp(t) + 1>>, <<LowExp(t) + 1, LowExp(t)>>,
           Ones(LowExp(t) + Precision(t) - 2, Precision(t) - 1), <<LowExp(t) + Precision(t) - 1>>,
           Odd(LowExp(t) + Precision(t) - 2, Precision(t) - 1)}
Sums(t) ==
  LET n == Precision(t) IN
  {x \in UNION {{<<top>>, Ones(top, n), Odd(top, n), Ones(top, n - 1), <<top, top - n + 1>>, Ones(top, 2)} : top \in Tops(t)}
         \cup Low(t) : IsFloat(Format(t), x)}

\* decimals close to a decimal, and how they compare to it
More(v) == [v EXCEPT !.d = v.d \o <<0, 0, 1>>, !.p = @ - 3]
LessBy(v) == [v EXCEPT !.d = NoLead(PredDigits(v.d)) \o <<9, 9>>, !.p = @ - 2]
Cut(v, n) == [v EXCEPT !.d = SubSeq(@, 1, n), !.p = @ + Len(v.d) - n]
CutUp(v, n) == [v EXCEPT !.d = Succ(SubSeq(@, 1, n)), !.p = @ + Len(v.d) - n]
Lengths(t) == {8, 9, 10, 12, 16, 17, 18, 19, 20, 21, 30}

Layout(neg, v) ==
  LET n == Len(v.d) IN
  {Written(neg, v.d, v.p, 0, 0, at, "none", 0) : at \in {n, 1}}
  \cup (IF v.p <= 0 /\ -v.p < n + 20
        THEN {Written(neg, v.d, v.p, Max2(0, -v.p - n), 2, Max2(0, n + v.p), "none", 0)} ELSE {})
Show(t, l, x) == WellFormed(l) => PrintT(ToJson([l |-> Text(l), t |-> t, neg |-> x.neg, ks |-> x.ks, inf |-> x.inf]))
ShowAll(t, neg, v, x) ==
  /\ Assert(Rounds(Format(t), [v EXCEPT !.neg = neg], x), <<"not the nearest", t, v, x>>)
  /\ \A l \in Layout(neg, v) : Show(t, l, x)

Around(t, neg, ks) ==
  LET f == Format(t)
      lo == Finite(neg, ks)
      hi == NextUp(f, lo)
      mid == Above(f, ks)
      \* a short decimal may be on the other side of a neighbour: then it says nothing here
      Which(v) == IF Rounds(f, [v EXCEPT !.neg = neg], lo) THEN {lo}
                  ELSE IF Rounds(f, [v EXCEPT !.neg = neg], hi) THEN {hi} ELSE {}
  IN /\ ShowAll(t, neg, mid, IF Even(f, ks) THEN lo ELSE hi)
     /\ ShowAll(t, neg, More(mid), hi)
     /\ ShowAll(t, neg, LessBy(mid), lo)
     /\ \A n \in Lengths(t) : n < Len(mid.d) =>
          \A v \in {Cut(mid, n), CutUp(mid, n)} : \A x \in Which(NoTrail(v)) : ShowAll(t, neg, v, x)

VARIABLES typ, sum
Init == \E t \in FloatTypes : \E ks \in Sums(t) : typ = t /\ sum = ks
Next == UNCHANGED <<typ, sum>>
Spec == Init /\ [][Next]_<<typ, sum>>
Printed == \A neg \in {FALSE, TRUE} : (neg => Len(sum) % 2 = 0) => Around(typ, neg, sum)
=============================================================================

------------------------------- MODULE CodecDocs -----------------------------
(* Documents near the document of a value: reordered, with entries missing, added, renamed or replaced, *)
(* objects as arrays, arrays of other lengths, other tags.                                             *)
EXTENDS CodecTypes

Zz == <<"zz", Arr(<<Obj(<< <<"x", Num("1")>> >>), Str("zz")>>)>>
Values_(es) == [i \in 1..Len(es) |-> es[i][2]]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Orders(es) ==
  LET n == Len(es) IN
  {Reverse(es)} \cup (IF n > 1 THEN {Tail(es) \o <<es[1]>>, <<es[n]>> \o Front(es), Swapped(es, 1, n), Swapped(es, 1, 2)} ELSE {})
  \cup (IF n = 3 THEN {<<es[2], es[3], es[1]>>, <<es[1], es[3], es[2]>>} ELSE {})
\* places among n: all of them, or those at the ends and at borders
Places(n) == IF n <= 32 THEN 1..n ELSE {1, 2, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 128, 255, 256, n - 1, n} \cap 1..n
Gaps(n) == {i + 1 : i \in Places(n)} \cup {1}
Scalars == {Lit("null"), Lit("true"), Num("0"), Num("7"), Num("300"), Num("-1"), Num("0.5"), Str("zz"), Str("a"), Obj(<<>>), Arr(<<>>)}
MutTop(d) ==
  Scalars \cup
  CASE d.k = "obj" ->
         LET n == Len(d.es) IN
         {Obj(o) : o \in Orders(d.es)} \cup {Obj(Reverse(With(d.es, n + 1, Zz)))}
         \cup {Obj(Without(d.es, i)) : i \in Places(n)}
         \cup {Obj(With(d.es, i, Zz)) : i \in Gaps(n)}
         \cup {Obj([d.es EXCEPT ![i] = <<@[1] \o "x", @[2]>>]) : i \in {i \in Places(n) : \A j \in 1..n : d.es[j][1] # d.es[i][1] \o "x"}}
         \cup {Arr(Values_(d.es)), Arr(Append(Values_(d.es), Num("1")))}
         \cup (IF n > 0 THEN {Arr(Front(Values_(d.es))), Arr(Reverse(Values_(d.es)))} ELSE {})
    [] d.k = "arr" ->
         LET n == Len(d.xs) IN
         {Arr(Without(d.xs, i)) : i \in Places(n)} \cup {Arr(With(d.xs, i, Num("1"))) : i \in Gaps(n)} \cup {Arr(Reverse(d.xs))}
         \cup {Obj([i \in 1..n |-> <<ToString(i), d.xs[i]>>])}
         \cup (IF n > 0 THEN {Arr(Append(d.xs, d.xs[n]))} ELSE {})
    [] d.k = "str" -> {Str(d.t \o "x"), Str("")} \cup {Num(ToString(i)) : i \in {1, 2, 5, 255, 256, 299}} \cup {Num("18446744073709551615")}
    [] OTHER -> {Str(d.t), Num("1"), Num("255"), Num("-128")}
RECURSIVE Near(_)
Near(d) ==
  MutTop(d) \cup
  CASE d.k = "obj" -> UNION {{Obj([d.es EXCEPT ![i] = <<@[1], x>>]) : x \in Near(d.es[i][2])} : i \in Places(Len(d.es))}
    [] d.k = "arr" -> UNION {{Arr([d.xs EXCEPT ![i] = x]) : x \in Near(d.xs[i])} : i \in Places(Len(d.xs))}
    [] OTHER -> {}
\* the tag of an enum: all its names and indices, and what is next to them
WrapTags == WideNats \cup {"18446744073709551616", "18446744073709551617", "18446744073709551618"}
Tags(T) == LET xs == Indices(T.vs) IN
           {Str(T.vs[i].n) : i \in 1..Len(T.vs)} \cup {Num(ToString(xs[i])) : i \in 1..Len(T.vs)}
           \cup {Num(ToString(n)) : n \in {n \in {xs[i] + 1 : i \in 1..Len(T.vs)} \cup {0, 1, 2} : n \in 0..1000}}
           \cup {Str(T.vs[i].n \o "x") : i \in 1..Len(T.vs)}
           \cup {Num(t) : t \in WrapTags}
           \cup {Str("V0"), Str("v"), Str("red"), Num("18446744073709551615"), Num("-1"), Num("0.5")}
IsTag(T) == T.k = "enum" /\ TagField(T) = NoTag
IsTagged(T) == T.k = "enum" /\ TagField(T) # NoTag
\* whole documents for an enum
TagDocs(T, v) ==
  CASE IsTag(T) -> Tags(T)
    [] IsTagged(T) -> LET es == Tail(Entries(T, v)) IN
         {Obj(<< <<TagField(T), t>> >> \o es) : t \in Tags(T)} \cup {Obj(Append(es, <<TagField(T), t>>)) : t \in Tags(T)}
         \cup {Arr(<<t>> \o Values_(es)) : t \in Tags(T)}
    [] OTHER -> {}
=============================================================================

-------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What a type means: the calls that write one of its values to a format   *)
(* (Encode), the JSON document those calls make (Doc), and what is read    *)
(* from any document (Dec): a value, with the order in which the context   *)
(* is shown to the leaves, or an error.                                    *)
(*                                                                         *)
(* Types are records, [k |-> kind, ...]:                                   *)
(*   prim   p: the primitive ("leaf" is a u32 that notes itself in the     *)
(*          context, "even" a u32 that is validated, both user-defined)    *)
(*   unit, opt t, vec t, arr t n, tup ts                                   *)
(*   struct name fs        fs: fields [n, t, m, px], m "plain", "default"  *)
(*          or "flatten", px whether t is only the proxy of the field      *)
(*   enum   name tag vs    tag: the declared tag field, or "<none>"        *)
(*          vs: variants [n, d, x, k, fs], d the declared discriminant and *)
(*          x the declared index (-1: none), k "unit", "fields", or        *)
(*          "inner" (transparent over the one field)                       *)
(* Values are <<"lit", text>>, <<"unit">>, <<"none">>, <<"some", v>>,      *)
(* <<"seq", vs>>, <<"rec", vs>>, <<"var", i, vs>>.                         *)
(* Documents are [k |-> "num"/"str"/"lit", t |-> text], [k |-> "arr", xs], *)
(* [k |-> "obj", es |-> sequence of <<key, document>>].                    *)
(***************************************************************************)
EXTENDS Outliner, FiniteSets, TLC

Signed == {"i8", "i16", "i32", "i64"}
Unsigned == {"u8", "u16", "u32", "u64"}
Floats == {"f32", "f64"}
NonZero == {"nz_i8", "nz_i16", "nz_i32", "nz_i64", "nz_u8", "nz_u16", "nz_u32", "nz_u64"}
User == {"leaf", "even"}
\* what a primitive is to the format
Wire == [p \in {"bool", "char", "str"} \cup Signed \cup Unsigned \cup Floats |-> p]
        @@ [p \in User |-> "u32"]
        @@ [p \in NonZero |-> CASE p = "nz_i8" -> "i8" [] p = "nz_i16" -> "i16" [] p = "nz_i32" -> "i32"
                                [] p = "nz_i64" -> "i64" [] p = "nz_u8" -> "u8" [] p = "nz_u16" -> "u16"
                                [] p = "nz_u32" -> "u32" [] OTHER -> "u64"]
\* the number literals that occur, and the number types whose range they are in
Fits ==
  LET small == Signed \cup Unsigned \cup Floats IN
  "0" :> small @@ "1" :> small @@ "2" :> small @@ "7" :> small @@ "100" :> small @@ "127" :> small
  @@ "255" :> small \ {"i8"} @@ "300" :> small \ {"i8", "u8"}
  @@ "-1" :> Signed \cup Floats @@ "-128" :> Signed \cup Floats
  @@ "-32768" :> (Signed \cup Floats) \ {"i8"} @@ "32767" :> small \ {"i8", "u8"}
  @@ "65535" :> small \ {"i8", "u8", "i16"}
  @@ "2147483647" :> {"i32", "u32", "i64", "u64"} \cup Floats
  @@ "-2147483648" :> {"i32", "i64"} \cup Floats
  @@ "4294967295" :> {"u32", "i64", "u64"} \cup Floats
  @@ "9223372036854775807" :> {"i64", "u64"} \cup Floats
  @@ "-9223372036854775808" :> {"i64"} \cup Floats
  @@ "18446744073709551615" :> {"u64"} \cup Floats
  @@ "0.5" :> Floats @@ "-2.25" :> Floats @@ "0.1" :> Floats @@ "1e30" :> Floats
\* indices that some narrower integer cuts down to a small one
WideNats == {"256", "257", "258", "65536", "65537", "65541", "2147483648", "4294967296", "4294967297", "4294967298",
             "4294967301", "9223372036854775808"}
IsNat(t) == t \in WideNats \/ t \in {"0", "1", "2", "7", "100", "127", "255", "300", "32767", "65535", "2147483647", "4294967295",
                   "9223372036854775807", "18446744073709551615"} \/ (\E n \in 0..1000 : t = ToString(n))
\* the text of a float that was read from an integer
AsFloat(p, t) ==
  CASE t \in {"0.5", "-2.25", "0.1", "1e30"} -> t
    [] t = "9223372036854775807" -> IF p = "f32" THEN "9.223372e18" ELSE "9.223372036854776e18"
    [] t = "-9223372036854775808" -> IF p = "f32" THEN "-9.223372e18" ELSE "-9.223372036854776e18"
    [] t = "18446744073709551615" -> IF p = "f32" THEN "1.8446744e19" ELSE "1.8446744073709552e19"
    [] t = "2147483647" -> IF p = "f32" THEN "2147483600.0" ELSE "2147483647.0"
    [] t = "-2147483648" -> IF p = "f32" THEN "-2147483600.0" ELSE "-2147483648.0"
    [] t = "4294967295" -> IF p = "f32" THEN "4294967300.0" ELSE "4294967295.0"
    [] OTHER -> t \o ".0"
\* strings of one character (what is in angle brackets stands for a character)
OneChar == {"x", "<w>", "<q>", "<u>", "a"}
Odd == {"1", "7", "127", "255", "32767", "65535", "2147483647", "4294967295"}

\* some values of the primitives; the first is always the default where there is one
Vals(p) ==
  CASE p = "bool" -> <<"false", "true">>
    [] p = "i8" -> <<"0", "-128", "127">> [] p = "i16" -> <<"0", "-32768", "32767">>
    [] p = "i32" -> <<"0", "-2147483648", "2147483647">>
    [] p = "i64" -> <<"0", "-9223372036854775808", "9223372036854775807">>
    [] p = "u8" -> <<"0", "255">> [] p = "u16" -> <<"0", "65535">> [] p = "u32" -> <<"0", "4294967295">>
    [] p = "u64" -> <<"0", "18446744073709551615">>
    [] p = "f32" -> <<"0.5", "-2.25", "0.1">> [] p = "f64" -> <<"0.5", "-2.25", "1e30">>
    [] p = "char" -> <<"x", "<w>", "<q>">> [] p = "str" -> <<"", "ab", "<q><b><u>", "<0><n>">>
    [] p = "leaf" -> <<"0", "7", "4294967295">> [] p = "even" -> <<"0", "100">>
    [] p \in {"nz_i8", "nz_i16", "nz_i32", "nz_i64"} -> <<"1", "-128">>
    [] OTHER -> <<"1", "255">>

-----------------------------------------------------------------------------
\* enums: the index of each variant is its discriminant, unless it declares another
Discriminants(vs) == FoldLeft(LAMBDA acc, v : Append(acc, IF v.d >= 0 THEN v.d
                                                        ELSE IF acc = <<>> THEN 0 ELSE acc[Len(acc)] + 1), <<>>, vs)
Indices(vs) == LET ds == TLCEval(Discriminants(vs)) IN TLCEval([i \in 1..Len(vs) |-> IF vs[i].x >= 0 THEN vs[i].x ELSE ds[i]])
Index(vs, i) ==
  IF vs[i].x >= 0 THEN vs[i].x
  ELSE LET js == {j \in 1..i : vs[j].d >= 0} IN
       IF js = {} THEN i - 1 ELSE LET j == CHOOSE j \in js : \A k \in js : k <= j IN vs[j].d + (i - j)
MaxIndex(vs) ==
  FoldLeft(LAMBDA a, v : LET d == IF v.d >= 0 THEN v.d ELSE a[1] + 1
                             x == IF v.x >= 0 THEN v.x ELSE d
                         IN TLCEval(<<d, IF x > a[2] THEN x ELSE a[2]>>), <<-1, 0>>, vs)[2]
\* an enum without data and without a declared tag field is a mere tag
NoTag == "<none>"
TagField(T) == IF T.tag # NoTag THEN T.tag ELSE IF \A i \in 1..Len(T.vs) : T.vs[i].k = "unit" THEN NoTag ELSE "type"

Nullable(T) == T.k = "opt"
\* the option uses the null literal
Niche(T, nulls) == nulls /\ ~Nullable(T.t)

C(c, x) == [c |-> c, x |-> x]
Bool(b) == C("put", "bool:" \o b)
RECURSIVE Encode(_, _, _), Content(_, _, _)
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
EncodeFields(fs, vs, nulls) ==
  Flat([j \in 1..Len(fs) |->
    IF fs[j].m = "flatten" THEN Content(fs[j].t, vs[j], nulls)
    ELSE <<C("field", fs[j].n)>> \o Encode(fs[j].t, vs[j], nulls)])
TagCall(vs, i) == C("tag", ToString(MaxIndex(vs)) \o ":" \o ToString(Index(vs, i)) \o ":" \o vs[i].n)
\* the content of what is written as a struct
Content(T, v, nulls) ==
  CASE T.k = "unit" -> <<>>
    [] T.k = "struct" -> EncodeFields(T.fs, v[2], nulls)
    [] T.k = "enum" ->
         LET w == T.vs[v[2]] IN
         <<C("field", TagField(T)), TagCall(T.vs, v[2])>>
         \o (IF w.k = "inner" THEN Content(w.fs[1].t, v[3][1], nulls) ELSE EncodeFields(w.fs, v[3], nulls))
Encode(T, v, nulls) ==
  CASE T.k = "prim" -> <<C("put", Wire[T.p] \o ":" \o v[2])>>
    [] T.k = "unit" -> <<C("open_struct", ""), C("close_struct", "")>>
    [] T.k = "opt" ->
         IF Niche(T, nulls) THEN IF v[1] = "none" THEN <<C("null", "")>> ELSE Encode(T.t, v[2], nulls)
         ELSE <<C("open_struct", "Option"), C("field", "has_value")>>
              \o (IF v[1] = "none" THEN <<Bool("false")>>
                  ELSE <<Bool("true"), C("field", "value")>> \o Encode(T.t, v[2], nulls))
              \o <<C("close_struct", "")>>
    [] T.k = "vec" -> <<C("open_list", ToString(Len(v[2])))>>
                      \o Flat([j \in 1..Len(v[2]) |-> <<C("item", "")>> \o Encode(T.t, v[2][j], nulls)])
                      \o <<C("close_list", "")>>
    [] T.k = "arr" -> <<C("open_tuple", "")>>
                      \o Flat([j \in 1..Len(v[2]) |-> <<C("elem", "")>> \o Encode(T.t, v[2][j], nulls)])
                      \o <<C("close_tuple", "")>>
    [] T.k = "tup" -> <<C("open_tuple", "")>>
                      \o Flat([j \in 1..Len(v[2]) |-> <<C("elem", "")>> \o Encode(T.ts[j], v[2][j], nulls)])
                      \o <<C("close_tuple", "")>>
    [] T.k = "struct" -> <<C("open_struct", T.name)>> \o Content(T, v, nulls) \o <<C("close_struct", "")>>
    [] T.k = "enum" ->
         IF TagField(T) = NoTag THEN <<TagCall(T.vs, v[2])>>
         ELSE <<C("open_struct", T.name)>> \o Content(T, v, nulls) \o <<C("close_struct", "")>>

\* the same calls as steps of the stack protocol
Kinds(calls) == [j \in 1..Len(calls) |-> calls[j].c]

-----------------------------------------------------------------------------
\* the JSON document of a value
Num(t) == [k |-> "num", t |-> t]
Str(t) == [k |-> "str", t |-> t]
Lit(t) == [k |-> "lit", t |-> t]
Arr(xs) == [k |-> "arr", xs |-> xs]
Obj(es) == [k |-> "obj", es |-> es]
RECURSIVE Doc(_, _), Entries(_, _)
Scalar(p, t) == CASE p = "bool" -> Lit(t) [] p \in {"char", "str"} -> Str(t) [] OTHER -> Num(t)
FieldEntries(fs, vs) == Flat([j \in 1..Len(fs) |-> IF fs[j].m = "flatten" THEN Entries(fs[j].t, vs[j])
                                                   ELSE << <<fs[j].n, Doc(fs[j].t, vs[j])>> >>])
Entries(T, v) ==
  CASE T.k = "unit" -> <<>>
    [] T.k = "struct" -> FieldEntries(T.fs, v[2])
    [] T.k = "enum" -> LET w == T.vs[v[2]] IN
         << <<TagField(T), Str(w.n)>> >>
         \o (IF w.k = "inner" THEN Entries(w.fs[1].t, v[3][1]) ELSE FieldEntries(w.fs, v[3]))
Doc(T, v) ==
  CASE T.k = "prim" -> Scalar(T.p, v[2])
    [] T.k = "opt" /\ Niche(T, TRUE) -> IF v[1] = "none" THEN Lit("null") ELSE Doc(T.t, v[2])
    [] T.k = "opt" -> Obj(IF v[1] = "none" THEN << <<"has_value", Lit("false")>> >>
                          ELSE << <<"has_value", Lit("true")>>, <<"value", Doc(T.t, v[2])>> >>)
    [] T.k \in {"vec", "arr"} -> Arr(TLCEval([j \in 1..Len(v[2]) |-> Doc(T.t, v[2][j])]))
    [] T.k = "tup" -> Arr(TLCEval([j \in 1..Len(v[2]) |-> Doc(T.ts[j], v[2][j])]))
    [] T.k = "enum" /\ TagField(T) = NoTag -> Str(T.vs[v[2]].n)
    [] OTHER -> Obj(Entries(T, v))

-----------------------------------------------------------------------------
\* the order in which the leaves of a value see the context
RECURSIVE Seen(_, _)
Seen(T, v) ==
  CASE T.k = "prim" -> IF T.p = "leaf" THEN <<v[2]>> ELSE <<>>
    [] T.k = "unit" -> <<>>
    [] T.k = "opt" -> IF v[1] = "none" THEN <<>> ELSE Seen(T.t, v[2])
    [] T.k \in {"vec", "arr"} -> Flat([j \in 1..Len(v[2]) |-> Seen(T.t, v[2][j])])
    [] T.k = "tup" -> Flat([j \in 1..Len(v[2]) |-> Seen(T.ts[j], v[2][j])])
    [] T.k = "struct" -> Flat([j \in 1..Len(v[2]) |-> Seen(T.fs[j].t, v[2][j])])
    [] T.k = "enum" -> LET w == T.vs[v[2]] IN Flat([j \in 1..Len(v[3]) |-> Seen(w.fs[j].t, v[3][j])])

\* the default of a type that has one
RECURSIVE Zero(_)
Zero(T) == CASE T.k = "prim" -> <<"lit", CASE T.p = "bool" -> "false" [] T.p = "str" -> "" [] T.p \in Floats -> "0.0"
                                           [] T.p = "char" -> "<0>" [] OTHER -> "0">>
             [] T.k = "unit" -> <<"unit">>
             [] T.k = "opt" -> <<"none">>
             [] T.k = "vec" -> <<"seq", <<>>>>
             [] T.k = "tup" -> <<"seq", [j \in 1..Len(T.ts) |-> Zero(T.ts[j])]>>
             [] T.k = "arr" -> <<"seq", [j \in 1..T.n |-> Zero(T.t)]>>
             [] T.k = "struct" -> <<"rec", [j \in 1..Len(T.fs) |-> Zero(T.fs[j].t)]>>

\* reading.  A result is [f, v, log]: f the faults that an error may name ({}: none)
Good(v, log) == [f |-> {}, v |-> v, log |-> log]
Bad(f) == [f |-> f, v |-> <<"none">>, log |-> <<>>]
\* the value of a missing entry is a null that knows its key
Miss(key) == [k |-> "miss", t |-> key]
Wrong(d) == Bad({IF d.k = "miss" THEN "missing:" \o d.t ELSE "other"})
IsNull(d) == d.k = "miss" \/ (d.k = "lit" /\ d.t = "null")

DecPrim(p, d) ==
  CASE p = "bool" -> IF d.k = "lit" /\ d.t # "null" THEN Good(<<"lit", d.t>>, <<>>) ELSE Wrong(d)
    [] p = "str" -> IF d.k = "str" THEN Good(<<"lit", d.t>>, <<>>) ELSE Wrong(d)
    [] p = "char" -> IF d.k = "str" /\ d.t \in OneChar THEN Good(<<"lit", d.t>>, <<>>) ELSE Wrong(d)
    [] OTHER ->
         IF d.k # "num" \/ (d.k = "num" /\ Wire[p] \notin Fits[d.t]) THEN Wrong(d)
         ELSE CASE p \in Floats -> Good(<<"lit", AsFloat(p, d.t)>>, <<>>)
                [] p \in NonZero /\ d.t = "0" -> Bad({"custom:zero"})
                [] p = "even" /\ d.t \in Odd -> Bad({"custom:odd"})
                [] p = "leaf" -> Good(<<"lit", d.t>>, <<d.t>>)
                [] OTHER -> Good(<<"lit", d.t>>, <<>>)

\* a tag is one of the names, or one of the indices
DecTag(vs, d) ==
  CASE d.k = "str" -> LET is == {i \in 1..Len(vs) : vs[i].n = d.t}
                      IN IF is = {} THEN Bad({"custom:name"}) ELSE Good(CHOOSE i \in is : TRUE, <<>>)
    [] d.k = "num" -> LET xs == Indices(vs)
                          is == {i \in 1..Len(vs) : ToString(xs[i]) = d.t}
                      IN CASE is # {} -> Good(CHOOSE i \in is : TRUE, <<>>)
                           [] IsNat(d.t) -> Bad({"custom:index"})
                           [] OTHER -> Wrong(d)
    [] OTHER -> Wrong(d)

\* a source of fields: by key from an object, or in order from an array
Source(d) == IF d.k = "obj" THEN [byKey |-> TRUE, es |-> d.es, xs |-> <<>>] ELSE [byKey |-> FALSE, es |-> <<>>, xs |-> d.xs]
Lacks(src) == ~src.byKey /\ src.xs = <<>>
Take(src, key) ==
  IF ~src.byKey THEN src.xs[1]
  ELSE LET is == {i \in 1..Len(src.es) : src.es[i][1] = key}
       IN IF is = {} THEN Miss(key) ELSE src.es[CHOOSE i \in is : TRUE][2]
Rest(src) == IF src.byKey THEN src ELSE [src EXCEPT !.xs = Tail(@)]
\* reading of content: [f, vs, log, src, dead], dead: nothing can be read any more
Begin(src) == [f |-> {}, vs |-> <<>>, log |-> <<>>, src |-> src, dead |-> FALSE]
Dead(f) == [f |-> f, vs |-> <<>>, log |-> <<>>, src |-> [byKey |-> TRUE, es |-> <<>>, xs |-> <<>>], dead |-> TRUE]

RECURSIVE Dec(_, _), DecContent(_, _), DecFields(_, _)
DecField(acc, fd) ==
  LET a == TLCEval(acc) IN
  IF a.dead THEN a
  ELSE IF fd.m = "flatten"
  THEN LET r == DecContent(fd.t, a.src) IN
       [f |-> a.f \cup r.f, vs |-> Append(a.vs, r.v), log |-> a.log \o r.log, src |-> r.src, dead |-> r.dead]
  ELSE IF Lacks(a.src) THEN [a EXCEPT !.f = @ \cup {"other"}, !.dead = TRUE]
  ELSE LET d == Take(a.src, fd.n)
           r == IF fd.m = "default" /\ IsNull(d) THEN Good(Zero(fd.t), <<>>) ELSE Dec(fd.t, d) IN
       [f |-> a.f \cup r.f, vs |-> Append(a.vs, r.v), log |-> a.log \o r.log, src |-> Rest(a.src), dead |-> FALSE]
DecFields(fs, src) == FoldLeft(DecField, Begin(src), fs)
Plain(n, t) == [n |-> n, t |-> t, m |-> "plain", px |-> FALSE]
\* content yields [f, v, log, src, dead]
As(a, v) == [f |-> a.f, v |-> v, log |-> a.log, src |-> a.src, dead |-> a.dead]
DecContent(T, src) ==
  CASE T.k = "unit" -> As(Begin(src), <<"unit">>)
    [] T.k = "opt" ->
         IF Lacks(src) THEN As(Dead({"other"}), <<"none">>)
         ELSE LET h == DecPrim("bool", Take(src, "has_value")) IN
              IF h.f # {} THEN As(Dead(h.f), <<"none">>)
              ELSE IF h.v[2] = "false" THEN As(Begin(Rest(src)), <<"none">>)
              ELSE LET a == DecFields(<<Plain("value", T.t)>>, Rest(src))
                   IN As(a, IF a.f = {} THEN <<"some", a.vs[1]>> ELSE <<"none">>)
    [] T.k = "struct" -> LET a == DecFields(T.fs, src) IN As(a, <<"rec", a.vs>>)
    [] T.k = "enum" ->
         IF Lacks(src) THEN As(Dead({"other"}), <<"none">>)
         ELSE LET t == DecTag(T.vs, Take(src, TagField(T))) IN
              IF t.f # {} THEN As(Dead(t.f), <<"none">>)
              ELSE LET w == T.vs[t.v] IN
                   IF w.k = "inner"
                   THEN LET a == DecContent(w.fs[1].t, Rest(src)) IN As(a, <<"var", t.v, <<a.v>>>>)
                   ELSE LET a == DecFields(w.fs, Rest(src)) IN As(a, <<"var", t.v, a.vs>>)
\* a struct skips what is left of an object, but an array has to be used up
DecStruct(T, d) ==
  IF d.k \notin {"obj", "arr"} THEN Wrong(d)
  ELSE LET r == DecContent(T, Source(d))
           left == ~r.dead /\ ~r.src.byKey /\ r.src.xs # <<>>
           f == r.f \cup (IF left THEN {"other"} ELSE {})
       IN IF f = {} THEN Good(r.v, r.log) ELSE Bad(f)
All(results) == LET rs == TLCEval(results) f == UNION {rs[j].f : j \in 1..Len(rs)} IN
           IF f = {} THEN Good(<<"seq", [j \in 1..Len(rs) |-> rs[j].v]>>, Flat([j \in 1..Len(rs) |-> rs[j].log])) ELSE Bad(f)
Dec(T, d) ==
  CASE T.k = "prim" -> DecPrim(T.p, d)
    [] T.k = "opt" /\ Niche(T, TRUE) ->
         IF IsNull(d) THEN Good(<<"none">>, <<>>)
         ELSE LET r == Dec(T.t, d) IN IF r.f = {} THEN Good(<<"some", r.v>>, r.log) ELSE r
    [] T.k = "vec" -> IF d.k # "arr" THEN Wrong(d) ELSE All([j \in 1..Len(d.xs) |-> Dec(T.t, d.xs[j])])
    [] T.k \in {"arr", "tup"} ->
         IF d.k # "arr" THEN Wrong(d)
         ELSE LET n == IF T.k = "arr" THEN T.n ELSE Len(T.ts)
                  m == IF Len(d.xs) < n THEN Len(d.xs) ELSE n
                  r == All([j \in 1..m |-> Dec(IF T.k = "arr" THEN T.t ELSE T.ts[j], d.xs[j])])
              IN IF Len(d.xs) = n THEN r ELSE Bad(r.f \cup {"other"})
    [] T.k = "enum" /\ TagField(T) = NoTag ->
         LET t == DecTag(T.vs, d) IN IF t.f = {} THEN Good(<<"var", t.v, <<>>>>, <<>>) ELSE t
    [] OTHER -> DecStruct(T, d)
=============================================================================

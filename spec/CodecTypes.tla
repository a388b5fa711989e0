------------------------------ MODULE CodecTypes -----------------------------
(***************************************************************************)
(* The types that are explored: every primitive, every container over      *)
(* every kind of inner type, and derived types with everything that can be *)
(* declared about them.                                                    *)
(***************************************************************************)
EXTENDS Codec

P(p) == [k |-> "prim", p |-> p]
Unit == [k |-> "unit"]
Opt(t) == [k |-> "opt", t |-> t]
Vec(t) == [k |-> "vec", t |-> t]
Array(t, n) == [k |-> "arr", t |-> t, n |-> n]
Tup(ts) == [k |-> "tup", ts |-> ts]
St(name, fs) == [k |-> "struct", name |-> name, fs |-> fs]
En(name, tag, vs) == [k |-> "enum", name |-> name, tag |-> tag, vs |-> vs]
Field(n, t, m, px) == [n |-> n, t |-> t, m |-> m, px |-> px]
F(n, t) == Field(n, t, "plain", FALSE)
D(n, t) == Field(n, t, "default", FALSE)
Fl(t) == Field("", t, "flatten", FALSE)
V(n) == [n |-> n, d |-> -1, x |-> -1, k |-> "unit", fs |-> <<>>]
VF(n, fs) == [n |-> n, d |-> -1, x |-> -1, k |-> "fields", fs |-> fs]
VI(n, t) == [n |-> n, d |-> -1, x |-> -1, k |-> "inner", fs |-> <<F("inner", t)>>]
AtD(v, d) == [v EXCEPT !.d = d]
AtX(v, x) == [v EXCEPT !.x = x]

leaf == P("leaf")
u8 == P("u8")
str == P("str")
bool == P("bool")

Point == St("Point", <<F("x", leaf), F("y", Opt(u8))>>)
Color == En("Color", NoTag, <<V("Red"), V("green"), AtD(V("Blue"), 7), V("<u>")>>)
Shape == En("Shape", NoTag, <<V("Empty"), VF("Circle", <<F("r", leaf)>>), VI("At", Point),
                           VF("Two", <<F("b", leaf), F("a", Opt(leaf))>>)>>)

Inner == <<leaf, u8, str, Opt(u8), Opt(Opt(leaf)), Vec(leaf), Tup(<<leaf, str>>), Array(leaf, 2), Unit, Point, Color, Shape>>
HasDefault(i) == i \notin {11, 12}
N(s, i) == s \o ToString(i)
Each(f(_)) == [i \in 1..Len(Inner) |-> f(i)]
Only(S, f(_)) == Flat([i \in 1..Len(Inner) |-> IF i \in S THEN <<f(i)>> ELSE <<>>])

Prims == <<"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "str", "leaf", "even",
           "nz_i8", "nz_i16", "nz_i32", "nz_i64", "nz_u8", "nz_u16", "nz_u32", "nz_u64">>
AllPrims == St("AllPrims", [i \in 1..Len(Prims) |-> F("f_" \o Prims[i], P(Prims[i]))])

OptPrims == St("OptPrims", [i \in 1..Len(Prims) |-> F("o_" \o Prims[i], Opt(P(Prims[i])))])
DefaultPrims == St("DefaultPrims", [i \in 1..15 |-> D("d_" \o Prims[i], P(Prims[i]))])
Names == St("Names", <<F("", leaf), F("a", leaf), F("ab", Opt(leaf)), D("abc", leaf), F("<q>", leaf), F("<u><w>", leaf),
                       F("a b", leaf), F("type", leaf), F("self", leaf), F("<0>", leaf)>>)
Hygiene == St("Hygiene", <<F("st", leaf), F("ctx", leaf), F("value", leaf), F("de", leaf), F("index", leaf), F("err", leaf),
                           F("done_flag", leaf), F("inner", leaf)>>)
Mid == St("Mid", <<F("m1", leaf), Fl(Point), D("m2", leaf)>>)
Shape3 == En("Shape3", NoTag, <<V("Dot"), VF("Circle", <<F("r", leaf)>>), VI("At", St("Pos", <<F("px", leaf), F("py", Opt(u8))>>))>>)
Chain == St("Chain", <<F("c1", leaf), Fl(Mid), Fl(Unit), Fl(Shape3), F("c2", leaf)>>)
Shape2 == En("Shape2", "tag2", <<V("Dot"), VF("Line", <<F("len", leaf)>>)>>)
Mid2 == St("Mid2", <<F("n1", leaf), Fl(Shape2)>>)
Ends == St("Ends", <<Fl(Point), F("e1", leaf), Fl(Mid2)>>)
Many == St("Many", [i \in 1..24 |-> IF i % 5 = 0 THEN D(N("f", i), leaf) ELSE F(N("f", i), IF i % 7 = 0 THEN Opt(leaf) ELSE leaf)])
Defaults == St("Defaults", <<D("a", u8), D("b", Opt(leaf)), D("c", Opt(Opt(leaf))), D("d", Vec(leaf)), D("e", Point),
                             D("f", Tup(<<leaf, bool>>)), D("g", str), D("h", P("f64")), D("i", Array(u8, 2)), D("j", Unit)>>)
Prox == St("Prox", <<Field("a", leaf, "plain", TRUE), Field("b", Vec(leaf), "default", TRUE), Field("", Point, "flatten", TRUE),
                     F("c", leaf), Field("d", Opt(leaf), "plain", TRUE)>>)

Big == En("Big", NoTag, [i \in 1..300 |-> V(N("v", i - 1))])
Prefixed == En("Prefixed", NoTag, <<V("ab"), V("abc"), V("a"), V("b"), V(""), V("<u>"), V("<u><u>"), V("<q>"), V("A"), V("0"), V("1")>>)
Reindexed == En("Reindexed", NoTag, <<AtX(V("A"), 5), V("B"), AtX(V("C"), 0), AtX(V("D"), 2000000000), V("E")>>)
Discrim == En("Discrim", NoTag, <<AtD(V("A"), 3), V("B"), AtD(V("C"), 1), V("D"), AtX(AtD(V("E"), 300), 7), V("F"), AtX(V("G"), 255)>>)
Single == En("Single", NoTag, <<V("Only")>>)
Kind == En("Kind", "kind", <<V("A"), V("B"), AtD(V("C"), 256)>>)
TypeTag == En("TypeTag", "type", <<V("type"), VF("kind", <<F("kind", leaf)>>)>>)
Overlap == En("Overlap", NoTag, <<VF("A", <<F("x", leaf)>>), VF("B", <<F("x", str), F("y", Opt(leaf))>>), VF("C", <<F("y", leaf), F("x", leaf)>>),
                               VF("D", <<>>), VF("E", <<D("x", leaf), D("z", Opt(leaf))>>), V("F")>>)
Trans == En("a trans", "t", <<AtD(VI("P", Point), 4), AtX(VI("M", Mid), 20), VI("K", Kind), VI("U", Unit), VF("Fl", <<Fl(Point), F("w", leaf)>>), V("N")>>)
Mixed == En("Mixed", NoTag, <<AtX(VF("st", <<F("st", leaf), F("ctx", leaf)>>), 2), AtD(VF("B", <<F("index", leaf)>>), 10), V("C"), VI("Sh", Shape2)>>)
Spaces == St("Spaces", <<F(" a", leaf), F("a ", Opt(leaf)), F("a", leaf), D("<n>a", leaf), F(" ", leaf), F("  ", leaf), F("A", leaf), F("a-b", leaf),
                         F("a_b", leaf), F("<u>", leaf), F("r#type", leaf)>>)
SpaceTag == En(" padded ", " ", <<V(" A"), V("A "), VF("A", <<F("a ", leaf), F(" a", Opt(leaf))>>), V(" "), VI("", Point), V("a-b"), V("a_b")>>)
SpaceNames == En("Space names", NoTag, <<V(" A"), V("A "), V("A"), V(" "), V(""), V("a"), V("<n>"), V("A-b"), V("A_b"), V("AB"), V("aB")>>)
EmptyTag == En("EmptyTag", "", <<V("A"), VF("B", <<F("type", leaf), F("b", Opt(leaf))>>), VI("C", Point)>>)
EmptyTag2 == En("EmptyTag2", "", <<V("A"), V("B")>>)
Empty == St("Empty", <<>>)
\* more fields than there are bits in a word
Wide == St("Wide", [i \in 1..70 |-> IF i % 9 = 0 THEN D(N("w", i), leaf) ELSE F(N("w", i), IF i % 11 = 0 THEN Opt(leaf) ELSE leaf)])
WideE == En("WideE", NoTag, <<VF("A", [i \in 1..66 |-> F(N("w", i), u8)]), V("B"), VI("C", Wide)>>)
Gen(t) == St("Gen", <<F("g", t), F("h", leaf)>>)
GenA(t, n) == St("GenA", <<F("xs", Array(t, n)), D("ys", Vec(t)), F("z", t)>>)
GenE(t) == En("GenE", "gtag", <<V("N"), VF("F", <<F("g", t), F("o", Opt(t))>>), VI("I", t)>>)

\* types composed by chance, from a seed
HasZero(T) ==
  LET RECURSIVE h(_)
      h(t) == CASE t.k = "prim" -> t.p \notin NonZero
                [] t.k \in {"unit", "opt", "vec"} -> TRUE
                [] t.k = "arr" -> h(t.t)
                [] t.k = "tup" -> \A n \in 1..Len(t.ts) : h(t.ts[n])
                [] t.k = "struct" -> \A n \in 1..Len(t.fs) : h(t.fs[n].t)
                [] OTHER -> FALSE
  IN h(T)
StructLike(T) == T.k \in {"unit", "struct"} \/ (T.k = "enum" /\ TagField(T) # NoTag)
Next_(s, n) == ((s + n) * 7919 + 104729) % 99991
Dice(s, m) == (s \div 7) % m
RECURSIVE Chance(_, _)
Chance(s, depth) ==
  LET a == Next_(s, 1) b == Next_(s, 2) c == Next_(s, 3)
      nm(x) == x \o ToString(depth) \o "_" \o ToString(s)
      \* number n of the fields
      field(n) ==
        LET t == Chance(Next_(s, 10 + n), depth - 1) r == Dice(Next_(s, 20 + n), 4) k == nm("k") \o "_" \o ToString(n) IN
        CASE r = 0 /\ HasZero(t) -> D(k, t)
          [] r \in {1, 2} /\ StructLike(t) -> Fl(t)
          [] OTHER -> F(k, t)
      fields(n) == TLCEval([m \in 1..n |-> field(m)])
      prim == P(Prims[1 + Dice(a, Len(Prims))])
  IN IF depth = 0 THEN IF Dice(b, 2) = 0 THEN leaf ELSE prim
     ELSE CASE Dice(b, 16) = 0 -> Vec(Chance(a, depth - 1))
            [] Dice(b, 16) = 1 -> Array(Chance(a, depth - 1), 1 + Dice(c, 3))
            [] Dice(b, 16) = 2 -> Tup(<<Chance(a, depth - 1), Chance(c, depth - 1)>>)
            [] Dice(b, 16) \in {3, 4, 5} -> Opt(Chance(a, depth - 1))
            [] Dice(b, 16) = 6 -> Unit
            [] Dice(b, 16) \in {7, 8, 9, 10, 11} -> St(nm("R"), fields(1 + Dice(c, 4)))
            [] Dice(b, 16) = 12 -> En(nm("R"), NoTag, [m \in 1..1 + Dice(c, 5) |-> LET v == V(nm("v") \o "_" \o ToString(m)) IN
                                            IF m % 3 = 2 THEN AtX(v, 100 + m * 7) ELSE v])
            [] OTHER -> LET t == Chance(a, depth - 1) IN
                        En(nm("R"), nm("t"), <<VF("P", fields(1 + Dice(c, 3))), V("Q")>>
                                             \o (IF StructLike(t) THEN <<VI("W", t)>> ELSE <<AtX(VF("X", <<F(nm("x"), t)>>), 50)>>))
Random == TLCEval([n \in 1..200 |-> Chance(Next_(n * 1009, 0), 2 + (n % 3))])

Types ==
  [i \in 1..Len(Prims) |-> P(Prims[i])]
  \o [i \in 1..Len(Prims) |-> Opt(P(Prims[i]))]
  \o [i \in 1..Len(Prims) |-> Vec(P(Prims[i]))]
  \o <<Unit, OptPrims, DefaultPrims>>
  \o Each(LAMBDA i : Opt(Inner[i]))
  \o Each(LAMBDA i : Vec(Inner[i]))
  \o Each(LAMBDA i : Array(Inner[i], 2))
  \o Each(LAMBDA i : Tup(<<Inner[i], leaf>>))
  \o Each(LAMBDA i : Tup(<<leaf, Inner[i], bool>>))
  \o Each(LAMBDA i : St(N("SP", i), <<F("first", leaf), F("mid", Inner[i]), F("last", leaf)>>))
  \o Only({i \in 1..Len(Inner) : HasDefault(i)}, LAMBDA i : St(N("SD", i), <<F("first", leaf), D("mid", Inner[i])>>))
  \o Only({9, 10, 12}, LAMBDA i : St(N("SF", i), <<F("first", leaf), Fl(Inner[i]), F("last", Opt(leaf))>>))
  \o Each(LAMBDA i : En(N("EF", i), NoTag, <<VF("A", <<F("p", Inner[i]), F("q", leaf)>>), V("B")>>))
  \o Only({9, 10, 12}, LAMBDA i : En(N("EI", i), "tag", <<V("B"), VI("A", Inner[i])>>))
  \o Each(LAMBDA i : Gen(Inner[i]))
  \o <<Point, Color, Shape, AllPrims, Names, Hygiene, Mid, Chain, Ends, Many, Defaults, Prox, Big, Prefixed, Reindexed, Discrim,
       Single, Kind, TypeTag, Overlap, Trans, Mixed, Empty, Array(leaf, 0), Array(Point, 3), Opt(Opt(Opt(leaf))), Opt(Opt(Opt(Opt(bool)))),
       Opt(Vec(Opt(leaf))), Vec(Opt(Opt(Point))), Opt(Tup(<<Opt(leaf), Opt(Unit)>>)), Vec(Vec(Vec(leaf))), Array(Array(leaf, 2), 2),
       Opt(Unit), Opt(Opt(Unit)), Gen(Gen(Opt(leaf))), Opt(Gen(Opt(Opt(str)))), Vec(Overlap), Opt(Chain), Opt(Trans), Vec(Kind),
       St("Opts", <<F("a", Opt(leaf)), F("b", Opt(Opt(leaf))), F("c", Opt(Vec(leaf))), F("d", Opt(Point)), D("e", Opt(Opt(leaf))), F("f", Opt(Kind))>>),
       St("Valid", <<F("a", P("even")), D("b", P("even")), F("c", Opt(P("nz_u8"))), F("d", Vec(P("even"))), Fl(St("Valid2", <<F("e", P("nz_i64"))>>))>>),
       Spaces, SpaceTag, SpaceNames, EmptyTag, EmptyTag2, Opt(EmptyTag),
       Opt(Array(Opt(leaf), 2)), Opt(Array(Opt(Opt(u8)), 1)), Opt(Array(Opt(leaf), 0)), Array(Opt(Opt(leaf)), 2), Opt(Opt(Array(Opt(leaf), 1))),
       St("Nest1", <<F("a", Opt(Array(Opt(leaf), 2))), F("b", Opt(Tup(<<Opt(leaf), Opt(u8)>>))), F("c", Opt(Vec(Opt(leaf)))), F("d", Opt(Tup(<<Opt(leaf), Unit, Opt(u8)>>)))>>),
       St("Nest2", <<F("a", Opt(Array(Unit, 2))), F("b", Opt(Gen(Opt(leaf)))), F("c", Opt(GenE(Point))), F("d", Opt(GenA(Opt(leaf), 1))), D("e", Array(Opt(leaf), 2))>>),
       St("Nest3", <<F("a", Opt(Defaults)), F("b", Opt(Empty)), F("c", Opt(Array(Empty, 0))), F("d", Opt(Opt(Array(Opt(leaf), 1))))>>),
       Opt(P("nz_u16")), Opt(P("even")), Vec(P("nz_i8")), GenA(Opt(leaf), 2), GenA(GenE(Point), 1), GenE(Unit), GenE(Mid), Opt(GenE(Shape)),
       Array(leaf, 33), Array(u8, 70), Array(bool, 257), Opt(Array(leaf, 17)), Tup(<<Array(u8, 40), Vec(leaf)>>), Wide, WideE>>
  \o Random

\* the values of a type: few, but every part of every value occurs
CONSTANT CAP
Cap(s, n) == IF Len(s) <= n THEN s ELSE [i \in 1..n |-> s[1 + ((i - 1) * (Len(s) - 1)) \div (n - 1)]]
\* combinations: along the diagonal, and each part on its own
Combine(ss) ==
  IF ss = <<>> THEN <<<<>>>>
  ELSE LET n == FoldLeft(LAMBDA m, s : IF Len(s) > m THEN Len(s) ELSE m, 0, ss)
           diag == [r \in 1..n |-> [j \in 1..Len(ss) |-> ss[j][1 + ((r - 1) % Len(ss[j]))]]]
           one(j) == [r \in 1..Len(ss[j]) - 1 |-> [i \in 1..Len(ss) |-> IF i = j THEN ss[j][r + 1] ELSE ss[i][1]]]
       IN diag \o Flat([j \in 1..Len(ss) |-> one(j)])
RECURSIVE Values(_)
Values(T) ==
  CASE T.k = "prim" -> [i \in 1..Len(Vals(T.p)) |-> <<"lit", Vals(T.p)[i]>>]
    [] T.k = "unit" -> <<<<"unit">>>>
    [] T.k = "opt" -> <<<<"none">>>> \o [i \in 1..Len(Values(T.t)) |-> <<"some", Values(T.t)[i]>>]
    [] T.k = "vec" -> LET s == Cap(Values(T.t), 4) IN <<<<"seq", s>>, <<"seq", <<>>>>, <<"seq", <<s[1]>>>>, <<"seq", Reverse(s)>>>>
    [] T.k = "arr" -> LET c == Cap(Combine([j \in 1..T.n |-> Values(T.t)]), CAP) IN [i \in 1..Len(c) |-> <<"seq", c[i]>>]
    [] T.k = "tup" -> LET c == Cap(Combine([j \in 1..Len(T.ts) |-> Values(T.ts[j])]), CAP) IN [i \in 1..Len(c) |-> <<"seq", c[i]>>]
    [] T.k = "struct" -> LET c == Cap(Combine([j \in 1..Len(T.fs) |-> Values(T.fs[j].t)]), CAP) IN [i \in 1..Len(c) |-> <<"rec", c[i]>>]
    [] T.k = "enum" -> Flat([w \in 1..Len(T.vs) |->
                         LET c == Cap(Combine([j \in 1..Len(T.vs[w].fs) |-> Values(T.vs[w].fs[j].t)]), CAP)
                         IN [i \in 1..Len(c) |-> <<"var", w, c[i]>>]])
AllValues == TLCEval([i \in 1..Len(Types) |-> Values(Types[i])])
=============================================================================

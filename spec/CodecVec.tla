------------------------------- MODULE CodecVec ------------------------------
(* Prints the types, the calls and documents of values, and what is read from documents near them. *)
EXTENDS CodecDocs, Json
CONSTANTS WHICH,  \* "types", "enc" or "dec"
          PART, PARTS
Pairs(calls) == [n \in 1..Len(calls) |-> <<calls[n].c, calls[n].x>>]
\* the fields that matter of a proxied type are read only
RECURSIVE Proxied(_)
Proxied(T) == CASE T.k \in {"prim", "unit"} -> FALSE
                [] T.k \in {"opt", "vec", "arr"} -> Proxied(T.t)
                [] T.k = "tup" -> \E n \in 1..Len(T.ts) : Proxied(T.ts[n])
                [] T.k = "struct" -> \E n \in 1..Len(T.fs) : T.fs[n].px \/ Proxied(T.fs[n].t)
                [] T.k = "enum" -> \E w \in 1..Len(T.vs) : \E n \in 1..Len(T.vs[w].fs) : T.vs[w].fs[n].px \/ Proxied(T.vs[w].fs[n].t)
Mine == {i \in 1..Len(Types) : i % PARTS = PART}
ASSUME WHICH # "types" \/
  /\ \A i \in 1..Len(Types) : PrintT(ToJson([i |-> i, t |-> Types[i], proxied |-> Proxied(Types[i])]))
  /\ \A i \in 1..Len(Prims) : PrintT(ToJson([p |-> Prims[i], vals |-> Vals(Prims[i])]))
ASSUME WHICH # "enc" \/
  \A i \in Mine : \A j \in 1..Len(AllValues[i]) :
    LET T == Types[i] v == AllValues[i][j] IN
    PrintT(ToJson([i |-> i, v |-> v, doc |-> Doc(T, v), log |-> Seen(T, v),
                   plain |-> Pairs(Encode(T, v, FALSE)), nulls |-> Pairs(Encode(T, v, TRUE))]))
Chosen(i) == Range(Cap(AllValues[i], IF Types[i].k = "enum" THEN 8 ELSE 4))
ASSUME WHICH # "dec" \/
  \A i \in Mine :
    LET T == Types[i]
        ds == UNION {Near(TLCEval(Doc(T, v))) \cup TagDocs(T, v) : v \in Chosen(i)}
    IN \A d \in ds : LET r == Dec(T, d) IN PrintT(ToJson([i |-> i, d |-> d, f |-> r.f, v |-> r.v, log |-> r.log]))
VARIABLE clock
Spec == clock = 0 /\ [][clock' = clock]_clock
=============================================================================

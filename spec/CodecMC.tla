-------------------------------- MODULE CodecMC ------------------------------
(* Theorems about Codec, for every type of CodecTypes and its values. *)
EXTENDS CodecDocs
\* (the names of variables must not be those of parameters elsewhere: TLC caches less then)
VARIABLES type, nth
Init == type \in 1..Len(Types) /\ nth = 0
Next == nth < Len(AllValues[type]) /\ nth' = nth + 1 /\ UNCHANGED type
Spec == Init /\ [][Next]_<<type, nth>>
T == Types[type]
v == AllValues[type][nth]
On == nth > 0
\* every sequence of calls conforms to the stack protocol and consumes exactly the value it is given
Protocol == On => \A nulls \in BOOLEAN : Conforms(<<"val">>, Kinds(Encode(T, v, nulls))) = [ok |-> TRUE, P |-> <<>>]
\* JSON is read back: the value, and the context in declared order
ReadBack == On => Dec(T, Doc(T, v)) = Good(v, Seen(T, v))
\* no two values are written alike, with or without a null literal
Distinct == nth = 1 =>
  LET vs == Range(AllValues[type]) n == Cardinality(vs) IN
  /\ Cardinality({Doc(T, w) : w \in vs}) = n
  /\ \A nulls \in BOOLEAN : Cardinality({Encode(T, w, nulls) : w \in vs}) = n
IsStruct == On /\ Doc(T, v).k = "obj"
Entries_ == Doc(T, v).es
Perms == [n \in 0..5 |-> {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}]
\* no object has two entries of the same key
RECURSIVE OneEach(_)
OneEach(d) == CASE d.k = "obj" -> /\ Cardinality({d.es[n][1] : n \in 1..Len(d.es)}) = Len(d.es)
                                  /\ \A n \in 1..Len(d.es) : OneEach(d.es[n][2])
                [] d.k = "arr" -> \A n \in 1..Len(d.xs) : OneEach(d.xs[n])
                [] OTHER -> TRUE
Unambiguous == On => OneEach(Doc(T, v))
\* the order of entries and undeclared entries do not matter; an array of the entries in order will do as well
AnyOrder == IsStruct => LET es == TLCEval(Entries_) good == TLCEval(Good(v, Seen(T, v))) IN
  /\ \A o \in Orders(es) : Dec(T, Obj(o)) = good
  /\ Len(es) <= 5 => \A f \in Perms[Len(es)] : Dec(T, Obj(TLCEval([n \in 1..Len(es) |-> es[f[n]]]))) = good
  /\ \A n \in 1..Len(es) + 1 : Dec(T, Obj(With(es, n, Zz))) = good
Positional == IsStruct => LET es == TLCEval(Entries_) IN
                          /\ Dec(T, Arr(Values_(es))) = Good(v, Seen(T, v))
                          /\ Dec(T, Arr(Append(Values_(es), Num("1")))).f # {}
                          /\ es # <<>> => Dec(T, Arr(Front(Values_(es)))).f # {}
\* a missing entry is an error that names its key, unless it has a default or is optional
Declared(f) == \E n \in 1..Len(T.fs) : T.fs[n].m # "flatten" /\ T.fs[n].n = f
FieldOf(f) == T.fs[CHOOSE n \in 1..Len(T.fs) : T.fs[n].m # "flatten" /\ T.fs[n].n = f]
Missing == (IsStruct /\ T.k = "struct") => LET es == TLCEval(Entries_) IN \A n \in 1..Len(es) : Declared(es[n][1]) =>
  LET r == Dec(T, Obj(Without(es, n)))
      fd == FieldOf(es[n][1])
  IN IF fd.m = "default" \/ (fd.t.k = "opt" /\ ~Nullable(fd.t.t)) THEN r.f = {}
     ELSE r.f = {"missing:" \o es[n][1]}
\* a name or a number is the tag of at most one variant, and each variant has exactly one name and number
OneTag == (T.k = "enum" /\ nth = 1) =>
  /\ Indices(T.vs) = [w \in 1..Len(T.vs) |-> Index(T.vs, w)]
  /\ MaxIndex(T.vs) \in Range(Indices(T.vs)) /\ \A w \in 1..Len(T.vs) : Index(T.vs, w) <= MaxIndex(T.vs)
  /\ Cardinality(Range(Indices(T.vs))) = Len(T.vs)
  /\ Len(T.vs) < 20 => \A t \in Tags(T) : LET r == DecTag(T.vs, t) IN
       IF r.f = {} THEN (t.k = "str" /\ T.vs[r.v].n = t.t) \/ (t.k = "num" /\ ToString(Index(T.vs, r.v)) = t.t)
       ELSE \A w \in 1..Len(T.vs) : (t.k = "str" => T.vs[w].n # t.t) /\ (t.k = "num" => ToString(Index(T.vs, w)) # t.t)

  /\ \A w \in 1..Len(T.vs) : DecTag(T.vs, Str(T.vs[w].n)).v = w /\ DecTag(T.vs, Num(ToString(Index(T.vs, w)))).v = w
\* what is read is a value of which the document could be written, up to the freedoms above: reading it again gives it again
Again == On => \A d \in Near(Doc(T, v)) : LET r == Dec(T, d) IN r.f = {} => Dec(T, Doc(T, r.v)).f = {}
=============================================================================

------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* The session of a reader over one document, at the level of its calls.  *)
(*                                                                         *)
(* A document is a sequence of nodes [k, c, key, v]: kind ("obj", "arr",   *)
(* "str", "num", "bool", "null"), the nodes of its members in document     *)
(* order, its own key (characters, if it is a member of an object), and    *)
(* its scalar value (a sequence of integers).  Node 1 is the root.         *)
(*                                                                         *)
(* The state of a session is                                               *)
(*   st    the stack of open containers, each with its unread members in   *)
(*         document order,                                                 *)
(*   top   what is on top of that: a value, a virtual null, an opened      *)
(*         string or key with its unread characters, the innermost open    *)
(*         container itself, or nothing,                                   *)
(*   last  the value popped last (0 where the interface leaves it open).   *)
(* Which members the reader had to pass over (set aside) to answer is not  *)
(* part of the state: no answer may depend on it.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Kinds == {"obj", "arr", "str", "num", "bool", "null"}

Val(n)     == [k |-> "val", n |-> n, x |-> <<>>]
Virt(key)  == [k |-> "virt", n |-> 0, x |-> key]
Virt0      == [k |-> "virt0", n |-> 0, x |-> <<>>]
Str(n, x)  == [k |-> "str", n |-> n, x |-> x]
Key(n, x)  == [k |-> "key", n |-> n, x |-> x]
Coll       == [k |-> "coll", n |-> 0, x |-> <<>>]
Done       == [k |-> "done", n |-> 0, x |-> <<>>]
Dead       == [k |-> "dead", n |-> 0, x |-> <<>>]

Start == [st |-> <<>>, top |-> Val(1), last |-> 0]

R(k, v) == [k |-> k, v |-> v]
Ok  == R("ok", <<>>)
Yes == R("yes", <<>>)
No  == R("no", <<>>)
Anything == R("any", <<>>)

\* an outcome: the next state of the session and the result of the call
To(s, r) == {[s |-> s, r |-> r]}
\* an error ends the session; it is positioned at a node
Fail(s, k, n, key) == To([st |-> <<>>, top |-> Dead, last |-> 0], R(k, <<n>> \o key))

Frame(s) == s.st[Len(s.st)]
Below(s) == IF s.st = <<>> THEN Done ELSE Coll

\* the value n has been consumed
Popped(s, n) == [s EXCEPT !.top = Below(s), !.last = n]
\* the innermost container has been closed
Closed(s) ==
  LET t == SubSeq(s.st, 1, Len(s.st) - 1)
  IN [st |-> t, top |-> IF t = <<>> THEN Done ELSE Coll, last |-> Frame(s).n]

Opened(doc, s, n) ==
  [st |-> Append(s.st, [n |-> n, left |-> doc[n].c]), top |-> Coll, last |-> 0]

WithLeft(s, left, top) ==
  [st |-> [s.st EXCEPT ![Len(s.st)] = [n |-> Frame(s).n, left |-> left]], top |-> top, last |-> 0]

RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* the unread members with a key
Matching(doc, s, key) == {i \in 1..Len(Frame(s).left) : doc[Frame(s).left[i]].key = key}

\* a choice of one of some names, or of an index
TagNames == <<<<97>>, <<97, 98>>, <<233>>, <<>>, <<110, 117, 108, 108>>>>
            \o [i \in 1..35 |-> <<110, 48 + (i \div 10), 48 + (i % 10)>>]
MaxTag == 1012

Scalars == {"bool", "num", "null", "str", "char", "tag"}
Opens == {"obj", "list", "struct"}

ReadScalar(doc, s, n, a) ==
  LET d == doc[n]
  IN CASE a = "char" ->
            IF d.k = "str" /\ Len(d.v) = 1 THEN To(Popped(s, n), R("char", d.v)) ELSE Fail(s, "err", n, <<>>)
       [] a = "tag" ->
            IF d.k = "str" /\ \E i \in 1..Len(TagNames) : TagNames[i] = d.v
            THEN To(Popped(s, n), R("tag", <<(CHOOSE i \in 1..Len(TagNames) : TagNames[i] = d.v) - 1>>))
            ELSE IF d.k = "num" /\ d.v[1] <= MaxTag THEN To(Popped(s, n), R("tag", d.v))
            ELSE Fail(s, "err", n, <<>>)
       [] OTHER ->
            IF d.k = a THEN To(Popped(s, n), R(a, d.v)) ELSE Fail(s, "err", n, <<>>)

Open(doc, s, n, a) ==
  LET d == doc[n]
  IN IF \/ d.k = "obj" /\ a \in {"obj", "struct"}
        \/ d.k = "arr" /\ a \in {"list", "struct"}
     THEN To(Opened(doc, s, n), Ok)
     ELSE Fail(s, "err", n, <<>>)

\* calls with a value on top
OnValue(doc, s, a) ==
  LET n == s.top.n
  IN CASE a \in Scalars -> ReadScalar(doc, s, n, a)
       [] a \in Opens   -> Open(doc, s, n, a)
       [] a = "openstr" -> IF doc[n].k = "str"
                           THEN To([s EXCEPT !.top = Str(n, doc[n].v), !.last = 0], Ok)
                           ELSE Fail(s, "err", n, <<>>)
       [] a = "check"   -> IF doc[n].k = "null" THEN To(Popped(s, n), Yes) ELSE To(s, No)
       [] a = "skip"    -> To(Popped(s, n), Ok)
       [] a = "ty"      -> To(s, R(doc[n].k, <<>>))
       [] OTHER         -> {}

\* calls with a virtual null on top: the missing entry of an object
OnVirtual(doc, s, a) ==
  CASE a \in {"null", "skip"} -> To(Popped(s, 0), IF a = "null" THEN R("null", <<>>) ELSE Ok)
    [] a = "check" -> To(Popped(s, 0), Yes)
    [] a = "ty" -> To(s, R("null", <<>>))
    [] a \in (Scalars \ {"null"}) \cup Opens \cup {"openstr"} ->
         IF s.top.k = "virt" THEN Fail(s, "missing", Frame(s).n, s.top.x)
                             ELSE Fail(s, "err", Frame(s).n, <<>>)
    [] OTHER -> {}

\* calls with an opened string or key on top
StringEnd(s) ==
  IF s.top.k = "str" THEN Popped(s, s.top.n)
                     ELSE [s EXCEPT !.top = Val(s.top.n), !.last = 0]
OnString(s, a) ==
  LET x == s.top.x
  IN CASE a = "next"  -> IF x = <<>> THEN To(StringEnd(s), No)
                         ELSE To([s EXCEPT !.top.x = Tail(x)], R("char", <<x[1]>>))
       [] a = "flush" -> To(StringEnd(s), R("str", x))
       [] a = "skipstr" -> To(StringEnd(s), Ok)
       [] a = "closestr" -> IF x = <<>> THEN To(StringEnd(s), Ok)
                            ELSE IF s.top.k = "str" THEN Fail(s, "err", s.top.n, <<>>)
                            ELSE To([st |-> <<>>, top |-> Dead, last |-> 0], Anything)
       [] OTHER -> {}

\* calls with an open object on top
Pick(doc, s, key, absent) ==
  LET m == Matching(doc, s, key) left == Frame(s).left
  IN IF m = {} THEN absent
     ELSE UNION {To(WithLeft(s, RemoveAt(left, i), Val(left[i])), Yes) : i \in m}
AsOk(os) == {[s |-> o.s, r |-> Ok] : o \in os}
OnObject(doc, s, a, key) ==
  LET f == Frame(s)
      found == Matching(doc, s, key) # {}
  IN CASE a = "entry" -> IF f.left = <<>> THEN To(Closed(s), No)
                         ELSE To(WithLeft(s, Tail(f.left), Key(f.left[1], doc[f.left[1]].key)), Yes)
       [] a = "try"   -> Pick(doc, s, key, To(s, No))
       [] a = "push"  -> IF found THEN AsOk(Pick(doc, s, key, {})) ELSE Fail(s, "missing", f.n, key)
       [] a = "field" -> IF found THEN AsOk(Pick(doc, s, key, {}))
                         ELSE To([s EXCEPT !.top = Virt(key), !.last = 0], Ok)
       [] a = "pushnull" -> To([s EXCEPT !.top = Virt0, !.last = 0], Ok)
       [] a = "closeobj" -> IF f.left = <<>> THEN To(Closed(s), Ok)
                            ELSE Fail(s, "extra", f.n, doc[f.left[1]].key)
       [] a = "skipobj" -> To(Closed(s), Ok)
       [] a = "closestruct" -> To(Closed(s), Ok)
       [] a = "cty" -> To(s, R("obj", <<>>))
       [] OTHER -> {}

\* calls with an open array on top
Item(s) == WithLeft(s, Tail(Frame(s).left), Val(Frame(s).left[1]))
OnArray(s, a) ==
  LET f == Frame(s)
  IN CASE a = "item" -> IF f.left = <<>> THEN To(Closed(s), No) ELSE To(Item(s), Yes)
       [] a \in {"pushitem", "field"} ->
            IF f.left = <<>> THEN Fail(s, "few", f.n, <<>>) ELSE To(Item(s), Ok)
       [] a \in {"closelist", "closestruct"} ->
            IF f.left = <<>> THEN To(Closed(s), Ok) ELSE Fail(s, "many", f.n, <<>>)
       [] a = "pushnull" -> To([s EXCEPT !.top = Virt0, !.last = 0], Ok)
       [] a = "cty" -> To(s, R("arr", <<>>))
       [] OTHER -> {}

\* The outcomes the specification allows for a call; none if the call is not permitted here.
Apply(doc, s, a, key) ==
  IF a = "mark" /\ s.top.k # "dead"
  THEN To(s, IF s.last = 0 THEN Anything ELSE R("at", <<s.last>>))
  ELSE CASE s.top.k = "val"  -> OnValue(doc, s, a)
         [] s.top.k \in {"virt", "virt0"} -> OnVirtual(doc, s, a)
         [] s.top.k \in {"str", "key"} -> OnString(s, a)
         [] s.top.k = "coll" -> IF doc[Frame(s).n].k = "obj" THEN OnObject(doc, s, a, key) ELSE OnArray(s, a)
         [] s.top.k = "done" -> IF a = "close" THEN To([s EXCEPT !.top = Dead], Ok) ELSE {}
         [] OTHER -> {}
=============================================================================

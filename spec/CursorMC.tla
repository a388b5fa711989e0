------------------------------ MODULE CursorMC ------------------------------
(***************************************************************************)
(* All sessions over a family of small documents: checks what the session *)
(* promises, and prints its transition graph (when PRINT) for the reader   *)
(* to be driven along every path.                                          *)
(***************************************************************************)
EXTENDS Cursor, TLC, Integers, FiniteSets, SequencesExt
CONSTANTS NODES,   \* documents have up to this many nodes
          WIDE,    \* no node has more members than this
          ACTS,    \* calls made
          PRINT
VARIABLES d, s, got

\* the shapes of documents: sequences of kinds in preorder with arities.  Scalars are strings,
\* numbers, booleans and nulls in turn, so that neighbours are told apart.
Node(k, i) == [k |-> k, i |-> i]

\* forests of n nodes with exactly m trees, as sequences of <<kind, arity>> in preorder
RECURSIVE Forests(_, _), Trees(_)
Trees(n) ==
  IF n = 1 THEN {<<Node("leaf", 0)>>, <<Node("obj", 0)>>, <<Node("arr", 0)>>}
  ELSE UNION {{<<Node(k, m)>> \o f : f \in Forests(n - 1, m), k \in {"obj", "arr"}} : m \in 1..(IF n - 1 < WIDE THEN n - 1 ELSE WIDE)}
Forests(n, m) ==
  IF m = 0 THEN IF n = 0 THEN {<<>>} ELSE {}
  ELSE UNION {{t \o f : t \in Trees(j), f \in Forests(n - j, m - 1)} : j \in 1..(n - m + 1)}

\* the node where the subtree of node i ends, and the members of i
RECURSIVE EndOf(_, _), EndOfForest(_, _, _)
EndOf(t, i) == EndOfForest(t, i + 1, t[i].i)
EndOfForest(t, i, m) == IF m = 0 THEN i - 1 ELSE EndOfForest(t, EndOf(t, i) + 1, m - 1)
RECURSIVE Members(_, _, _)
Members(t, i, m) == IF m = 0 THEN <<>> ELSE <<i>> \o Members(t, EndOf(t, i) + 1, m - 1)

LeafKinds == <<"num", "str", "bool", "null">>
Leaf(i) == LeafKinds[1 + (i % 4)]
LeafVal(i) == CASE Leaf(i) = "num" -> <<100 + i>>
                [] Leaf(i) = "str" -> <<97, 97 + i>>
                [] Leaf(i) = "bool" -> <<i % 2>>
                [] OTHER -> <<>>
KeyOf(t, i) ==
  LET ps == {p \in 1..Len(t) : \E j \in 1..t[p].i : Members(t, p + 1, t[p].i)[j] = i}
  IN IF ps = {} THEN <<>>
     ELSE LET p == CHOOSE p \in ps : TRUE
              j == CHOOSE j \in 1..t[p].i : Members(t, p + 1, t[p].i)[j] = i
          IN IF t[p].k = "obj" THEN <<96 + j>> ELSE <<>>
DocOf(t) ==
  [i \in 1..Len(t) |->
     [k |-> IF t[i].k = "leaf" THEN Leaf(i) ELSE t[i].k,
      c |-> Members(t, i + 1, t[i].i),
      key |-> KeyOf(t, i),
      v |-> IF t[i].k = "leaf" THEN LeafVal(i) ELSE <<>>]]

Docs == SetToSeq({DocOf(t) : t \in UNION {Trees(n) : n \in 1..NODES}})
doc == Docs[d]
Keys == {<<96 + j>> : j \in 1..WIDE} \cup {<<122>>}
Keyed == {"try", "push", "field"}

\* calls whose outcome does not change the session are bounded by the explorer of the graph
Calls == {<<a, <<>>>> : a \in ACTS \ Keyed} \cup {<<a, k>> : a \in ACTS \cap Keyed, k \in Keys}

Short(q) == ToString(<<[i \in 1..Len(q.st) |-> <<q.st[i].n, q.st[i].left>>], q.top.k, q.top.n, q.top.x, q.last>>)
Out(c, o) ==
  IF PRINT
  THEN PrintT("T|" \o ToString(d) \o "|" \o Short(s) \o "|" \o c[1] \o "|" \o ToString(c[2]) \o "|"
              \o o.r.k \o "|" \o ToString(o.r.v) \o "|" \o Short(o.s))
  ELSE TRUE

ShowDoc(i) ==
  PRINT => PrintT("D|" \o ToString(i) \o "|"
                  \o ToString([j \in 1..Len(Docs[i]) |->
                       <<Docs[i][j].k, Docs[i][j].c, Docs[i][j].key, Docs[i][j].v>>])
                  \o "|" \o Short(Start))

Init == /\ d \in 1..Len(Docs)
        /\ ShowDoc(d)
        /\ s = Start
        /\ got = <<>>

\* reads of a scalar as another type are covered by the trace checker; here values are read as
\* what they are
Sensible(c) ==
  s.top.k = "val" /\ c[1] \in Scalars \cup Opens \cup {"openstr"} =>
    \/ doc[s.top.n].k = c[1]
    \/ doc[s.top.n].k \in {"str", "num"} /\ c[1] = "tag"
    \/ doc[s.top.n].k = "arr" /\ c[1] = "list"
    \/ doc[s.top.n].k \in {"arr", "obj"} /\ c[1] = "struct"

Next == \E c \in Calls : Sensible(c) /\ \E o \in Apply(doc, s, c[1], c[2]) :
          /\ o.s # s \/ PRINT
          /\ Out(c, o)
          /\ s' = o.s
          /\ got' = IF ~PRINT /\ o.s.top.k = "val" /\ o.s # s
                       THEN Append(got, o.s.top.n) ELSE got
          /\ UNCHANGED d

\* no value is delivered twice
Once == Cardinality(Range(got)) = Len(got)
\* a value is delivered only while its container is open, and after it
Reaches == \A i \in 1..Len(s.st) : Range(s.st[i].left) \subseteq Range(doc[s.st[i].n].c)
\* what is unread has not been delivered; what is neither unread nor delivered was closed over
Partition == \A i \in 1..Len(s.st) : \A m \in Range(doc[s.st[i].n].c) :
               m \in Range(s.st[i].left) <=>
                 m \notin Range(got) /\ ~(s.top.k = "key" /\ s.top.n = m)
\* unread members stay in document order
Ordered == \A i \in 1..Len(s.st) : \A a, b \in 1..Len(s.st[i].left) :
             a < b => s.st[i].left[a] < s.st[i].left[b]
\* open containers are nested
Nested == \A i \in 2..Len(s.st) : s.st[i].n \in Range(doc[s.st[i - 1].n].c)
                                  /\ s.st[i].n \notin Range(s.st[i - 1].left)
\* Iteration on its own delivers every member in document order
Iterated == LET i == Len(s.st) IN i > 0 /\ s.top.k = "coll" =>
              s.st[i].left = SelectSeq(doc[s.st[i].n].c, LAMBDA m : m \notin Range(got))
\* a session can always be brought to its end
Alive == s.top.k # "dead" => \E c \in Calls : Apply(doc, s, c[1], c[2]) # {}
Inv == Reaches /\ Ordered /\ Nested /\ Alive /\ (PRINT \/ (Once /\ Partition /\ Iterated))
Spec == Init /\ [][Next]_<<d, s, got>>
=============================================================================

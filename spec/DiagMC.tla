------------------------------- MODULE DiagMC -------------------------------
(***************************************************************************)
(* All sessions over small documents, making every call wherever the      *)
(* interface permits it: what Diag has an error say is true of the reader  *)
(* that Cursor specifies.                                                  *)
(***************************************************************************)
EXTENDS CursorMC, Diag

Types == {"bool", "num", "null", "str", "obj", "arr"}
Values == {<<>>, <<0>>, <<97>>, <<97, 98>>, <<122, 122>>, <<100>>}
\* the document with another scalar, or an empty container, for node n
With(n, k, v) == [doc EXCEPT ![n] = [@ EXCEPT !.k = k, !.c = <<>>, !.v = v]]
Well(k, v) == (k \in {"bool", "num"} => Len(v) = 1)
Reads(n, k, a) == \E v \in Values : Well(k, v) /\ \A o \in Apply(With(n, k, v), s, a, <<>>) : o.r.k # "err"

Fails(c) == {o \in Apply(doc, s, c[1], c[2]) : o.s.top.k = "dead" /\ o.r.k \notin {"ok", "any"}}

\* the listed types are those the call can read in that place, and no others
Listed == s.top.k = "val" => \A c \in Calls : c[1] \in Scalars \cup Opens \cup {"openstr"} =>
            \A k \in Types : k \in Accepts(c[1]) <=> Reads(s.top.n, k, c[1])

\* what could be said
SayTypes == {<<>>, <<"str">>, <<"str", "num">>, <<"obj", "arr">>, <<"arr">>, <<"obj">>, <<"num">>, <<"bool">>, <<"null">>}
Says ==
  {[kind |-> k, types |-> <<>>, key |-> x, shown |-> <<>>, named |-> TRUE, names |-> TagNames, index |-> i]
     : k \in {"MissingKey", "ExtraKey", "MissingItems", "ExcessItems", "Custom", "Name", "Index"},
       x \in Keys \cup {<<>>}, i \in {100 + j : j \in 1..NODES} \cup {2000}}
  \cup {[kind |-> "Expected", types |-> t, key |-> <<>>, shown |-> t, named |-> FALSE, names |-> <<>>, index |-> 0] : t \in SayTypes}

\* there is something true to say of every error
Sayable == \A c \in Calls : \A o \in Fails(c) : \E m \in Says : Truthful(doc, s, c[1], c[2], o.r, m)
\* what is said of a missing or an extra key is true: there is no such member, or there is
Keyed_ == \A c \in Calls : \A o \in Fails(c) : \A m \in Says :
            Truthful(doc, s, c[1], c[2], o.r, m) =>
              /\ m.kind = "MissingKey" => (s.top.k = "coll" => m.key \notin Unread(doc, s))
              /\ m.kind = "ExtraKey" => \E i \in 1..Len(Frame(s).left) : doc[Frame(s).left[i]].key = m.key
              /\ m.kind = "Expected" => doc[s.top.n].k \notin Set(m.types)
              /\ m.kind = "MissingItems" => Frame(s).left = <<>>
              /\ m.kind = "ExcessItems" => Frame(s).left # <<>>

Every == \E c \in Calls : \E o \in Apply(doc, s, c[1], c[2]) :
          /\ o.s # s
          /\ s' = o.s
          /\ UNCHANGED <<d, got>>
DiagInv == Listed /\ Sayable /\ Keyed_
DiagSpec == Init /\ [][Every]_<<d, s, got>>
=============================================================================

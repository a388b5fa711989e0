------------------------------- MODULE NameMap -------------------------------
(***************************************************************************)
(* Incremental lookup of names.  A name is a sequence of numbers (bytes);  *)
(* a map is a sequence of distinct names, whose values are their positions.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

NoName == 0
\* what a lookup has to give: the position of exactly that name
Result(map, input) ==
  IF \E i \in 1..Len(map) : map[i] = input THEN CHOOSE i \in 1..Len(map) : map[i] = input ELSE NoName
Input(pieces) == FoldLeft(LAMBDA a, p : a \o p, <<>>, pieces)

(* The design: the names are sorted once; a lookup keeps the range of names that continue what was fed. *)
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE
              ELSE IF x = <<>> THEN TRUE
              ELSE x[1] < y[1] \/ (x[1] = y[1] /\ Less(Tail(x), Tail(y)))
\* the order: positions of map by name
Sorted(map) == SortSeq([i \in 1..Len(map) |-> i], LAMBDA i, j : Less(map[i], map[j]))
\* at most n numbers of a name from offset k on
Window(name, k, n) == SubSeq(name, k + 1, IF k + n < Len(name) THEN k + n ELSE Len(name))
\* a lookup is [lo, hi, fed]: the names lo..hi-1 of the order start with what was fed
StartLookup(order) == [lo |-> 1, hi |-> Len(order) + 1, fed |-> 0]
Feed(map, order, l, piece) ==
  LET fits(i) == Window(map[order[i]], l.fed, Len(piece)) = piece
      below(i) == Less(Window(map[order[i]], l.fed, Len(piece)), piece)
      in == {i \in l.lo..(l.hi - 1) : fits(i)}
      lo == l.lo + Cardinality({i \in l.lo..(l.hi - 1) : below(i)})
  IN [lo |-> lo, hi |-> lo + Cardinality(in), fed |-> l.fed + Len(piece)]
Finish(map, order, l) ==
  IF l.lo < l.hi /\ Len(map[order[l.lo]]) = l.fed THEN order[l.lo] ELSE NoName
=============================================================================

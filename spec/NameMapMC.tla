------------------------------ MODULE NameMapMC ------------------------------
(***************************************************************************)
(* Every map of the bound, given in every order, and every way of feeding  *)
(* every input: the narrowing range finds exactly the stored names.        *)
(***************************************************************************)
EXTENDS NameMap, TLC, Json
CONSTANTS NAMELEN, SIZE, INPUT, FEED, PRINT
VARIABLES map, pieces, l
vars == <<map, pieces, l>>
Letters == {1, 2}
Upto(n) == UNION {[1..k -> Letters] : k \in 0..n}
Names == Upto(NAMELEN)
Inputs == Upto(INPUT)
Pieces == Upto(FEED)

Show(m) == PrintT(ToJson([map |-> m,
                          got |-> [i \in 1..Cardinality(Inputs) |->
                            LET x == SetToSeq(Inputs)[i] IN [x |-> x, r |-> Result(m, x)]]]))
Init == map = <<>> /\ pieces = <<>> /\ l = [lo |-> 1, hi |-> 1, fed |-> 0] /\ (PRINT => Show(map))
Add == /\ pieces = <<>> /\ Len(map) < SIZE
       /\ \E n \in Names : /\ \A i \in 1..Len(map) : map[i] # n
                           /\ map' = Append(map, n)
       /\ l' = StartLookup(Sorted(map')) /\ UNCHANGED pieces
       /\ (PRINT => Show(map'))
FeedOne == /\ ~PRINT /\ \E p \in Pieces : /\ Len(Input(pieces)) + Len(p) <= INPUT /\ Len(pieces) < INPUT
                             /\ pieces' = Append(pieces, p)
                             /\ l' = Feed(map, Sorted(map), l, p)
           /\ UNCHANGED map
Next == Add \/ FeedOne
Spec == Init /\ [][Next]_vars

Order == Sorted(map)
Exact == Finish(map, Order, l) = Result(map, Input(pieces))
\* the range is exactly the names that continue the input
Kept == \A i \in 1..Len(map) : (i >= l.lo /\ i < l.hi) <=> IsPrefix(Input(pieces), map[Order[i]])
Inv == Exact /\ Kept
=============================================================================

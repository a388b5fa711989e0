------------------------------- MODULE SinkVec -------------------------------
(* Prints every script of a sink of the bound: what it does when offered bytes, one after the other *)
(* ("a": takes all, a digit: takes at most so many, "i": is interrupted, "f": fails; it takes       *)
(* everything after the script has ended).                                                          *)
EXTENDS Naturals, Sequences, TLC, SequencesExt
CONSTANT LONG
Outcomes == {"a", "1", "2", "i", "f"}
Scripts == UNION {[1..n -> Outcomes] : n \in 1..LONG}
Sensible(q) == \A j \in 1..Len(q) : q[j] = "f" => j = Len(q)
ASSUME \A q \in Scripts : Sensible(q) => PrintT(FoldLeft(LAMBDA o, x : o \o x, "", q))
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================

-------------------------------- MODULE SerMC --------------------------------
(***************************************************************************)
(* All writer sessions of the bound.  Checks that the output of a complete *)
(* session is the layout of the document that was written, and prints the  *)
(* sessions (when PRINT) for the real writer to be driven through.         *)
(***************************************************************************)
EXTENDS Ser, TLC, Json, FiniteSets
CONSTANTS NODES,  \* values written
          DEPTH, PRINT,
          SLIM    \* fewer kinds of scalars and calls
VARIABLES calls, s, trees
\* trees: for each open container and the outermost level, the trees completed in it, and the key
\* the next one will have
vars == <<calls, s, trees>>

Nodes == LET RECURSIVE Count(_)
             Count(t) == 1 + FoldLeft(LAMBDA n, c : n + Count(c), 0, t.c)
         IN FoldLeft(LAMBDA n, f : n + FoldLeft(LAMBDA m, t : m + Count(t), 0, f.c) + 1, 0, trees)

Level(k, key) == [k |-> k, key |-> key, c |-> <<>>, next |-> <<>>]
Init == calls = <<>> /\ s = Begin /\ trees = <<Level("top", <<>>)>>

C(a, v) == [a |-> a, v |-> v]
\* distinct values everywhere, so that a swap shows
Fresh == Len(calls)
Values ==
  (IF SLIM THEN {C("num", <<Fresh>>), C("null", <<>>)}
   ELSE {C("num", <<Fresh>>), C("bool", <<Fresh % 2>>), C("null", <<>>), C("str", <<97 + Fresh>>)})
  \cup {C("obj", <<>>), C("arr", <<>>)}
  \cup (IF SLIM THEN {} ELSE {C("openstr", <<>>)})
Inside == {C("entry", <<97 + Fresh>>), C("item", <<>>), C("close", <<>>)} \cup (IF SLIM THEN {} ELSE {C("addentry", <<>>)})
Letters == IF Len(s.buf) < 1 THEN {C("append", <<97 + Fresh>>), C("closestr", <<>>)} ELSE {C("closestr", <<>>)}

\* the key the value written next will have
NextKey == trees[Len(trees)].next
Put(t) == [trees EXCEPT ![Len(trees)].c = Append(@, t), ![Len(trees)].next = <<>>]
Tree(k, key, v, c) == [k |-> k, key |-> key, v |-> v, c |-> c]

Updated(c) ==
  CASE c.a \in Scalars -> Put(Tree(c.a, NextKey, c.v, <<>>))
    [] c.a \in {"obj", "arr"} -> Append(trees, Level(c.a, NextKey))
    [] c.a = "closestr" -> IF s.top = "str" THEN Put(Tree("str", NextKey, s.buf, <<>>))
                           ELSE [trees EXCEPT ![Len(trees)].next = s.buf]
    [] c.a = "entry" -> [trees EXCEPT ![Len(trees)].next = c.v]
    [] c.a = "close" ->
         LET f == trees[Len(trees)]
             r == Front(trees)
         IN [r EXCEPT ![Len(r)].c = Append(@, Tree(f.k, f.key, <<>>, f.c)), ![Len(r)].next = <<>>]
    [] OTHER -> trees

Next == \E c \in Values \cup Inside \cup Letters :
  /\ Allowed(s, c.a)
  /\ c.a \in {"item", "entry", "addentry"} => Nodes < NODES + 1
  /\ c.a \in {"obj", "arr"} => Len(s.st) < DEPTH
  /\ calls' = IF PRINT THEN Append(calls, c) ELSE Append(calls, 0)
  /\ s' = Call(s, c.a, c.v, TRUE)
  /\ trees' = Updated(c)
  /\ (PRINT /\ s'.top = "done") =>
        PrintT(ToJson([calls |-> calls', lines |-> s'.lines]))
Spec == Init /\ [][Next]_vars

Root == trees[1].c[1]
Complete == s.top = "done"
\* the incremental output is the layout of the document
Faithful == Complete => s.lines = Layout(Root, TRUE)
\* and so is the compact one, which is a single line with the same tokens
Flat == FoldLeft(LAMBDA o, l : o \o l.t, <<>>, s.lines)
Compact == Complete => Layout(Root, FALSE) = <<Line(0, Flat)>>
\* line starts: every member, every closing bracket of a nonempty container, nothing else
Starts == \A i \in 2..Len(s.lines) :
            /\ s.lines[i].t # <<>> => s.lines[i].t[1].s # ","
            /\ s.lines[i].t # <<>> /\ s.lines[i].t[1].s \in {"]", "}"} => Len(s.lines[i - 1].t) > 0 /\ s.lines[i - 1].d >= s.lines[i].d
Depths == \A i \in 2..Len(s.lines) :
            s.lines[i].d <= s.lines[i - 1].d + 1 /\ s.lines[i].d + 1 >= s.lines[i - 1].d
Inv == Faithful /\ Compact /\ Starts /\ Depths
=============================================================================

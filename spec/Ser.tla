--------------------------------- MODULE Ser ---------------------------------
(***************************************************************************)
(* The session of a JSON writer, and the output it owes.                   *)
(*                                                                         *)
(* Output is a sequence of lines [d, t]: how many copies of the indent the *)
(* line starts with, and the tokens on it.  A token is [s, v]: one of      *)
(* "[" "]" "{" "}" ",", a key (with its colon), or a scalar ("str", "num", *)
(* "bool", "null"), with its value.  Blanks between the tokens of a line   *)
(* and the spelling of tokens are left open here; JsonText says what they  *)
(* may be.                                                                 *)
(*                                                                         *)
(* The state of a session is                                               *)
(*   st     the stack of open containers, each with its kind and the       *)
(*          number of members it has so far                                *)
(*   top    "val", "str", "key", "coll" or "done"                          *)
(*   buf    the characters of the opened string or key                     *)
(*   lines  the output                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Tok(s, v) == [s |-> s, v |-> v]
Line(d, t) == [d |-> d, t |-> t]
Begin == [st |-> <<>>, top |-> "val", buf |-> <<>>, lines |-> <<Line(0, <<>>)>>]

Emit(lines, tok) == [lines EXCEPT ![Len(lines)].t = Append(@, tok)]
Break(lines, d) == Append(lines, Line(d, <<>>))

Innermost(s) == s.st[Len(s.st)]
\* a value has been written completely
After(st) == IF st = <<>> THEN "done" ELSE "coll"
Leaf(s, tok) == [s EXCEPT !.top = After(s.st), !.lines = Emit(@, tok), !.buf = <<>>]
Open(s, k) == [s EXCEPT !.st = Append(@, [k |-> k, n |-> 0]), !.top = "coll",
                        !.lines = Emit(@, Tok(IF k = "obj" THEN "{" ELSE "[", <<>>))]
\* a member of the innermost container begins
Member(s, ind) ==
  LET l1 == IF Innermost(s).n > 0 THEN Emit(s.lines, Tok(",", <<>>)) ELSE s.lines
      l2 == IF ind THEN Break(l1, Len(s.st)) ELSE l1
  IN [s EXCEPT !.st[Len(s.st)].n = @ + 1, !.lines = l2]
Shut(s, ind) ==
  LET l == IF Innermost(s).n > 0 /\ ind THEN Break(s.lines, Len(s.st) - 1) ELSE s.lines
      t == Front(s.st)
  IN [s EXCEPT !.st = t, !.top = After(t),
               !.lines = Emit(l, Tok(IF Innermost(s).k = "obj" THEN "}" ELSE "]", <<>>))]

\* the calls that may be made, and the state after them.  A call is [a, v].
Scalars == {"num", "bool", "null", "str"}
Allowed(s, a) ==
  CASE s.top = "val" -> a \in Scalars \cup {"obj", "arr", "openstr"}
    [] s.top \in {"str", "key"} -> a \in {"append", "closestr"}
    [] s.top = "coll" -> IF Innermost(s).k = "obj" THEN a \in {"entry", "addentry", "close"} ELSE a \in {"item", "close"}
    [] OTHER -> FALSE
Call(s, a, v, ind) ==
  CASE a \in Scalars -> Leaf(s, Tok(a, v))
    [] a \in {"obj", "arr"} -> Open(s, a)
    [] a = "openstr" -> [s EXCEPT !.top = "str", !.buf = <<>>]
    [] a = "append" -> [s EXCEPT !.buf = @ \o v]
    [] a = "closestr" -> IF s.top = "str" THEN Leaf(s, Tok("str", s.buf))
                         ELSE [s EXCEPT !.top = "val", !.lines = Emit(@, Tok("key", s.buf)), !.buf = <<>>]
    [] a = "entry" -> [Member(s, ind) EXCEPT !.top = "val", !.lines = Emit(@, Tok("key", v))]
    [] a = "addentry" -> [Member(s, ind) EXCEPT !.top = "key", !.buf = <<>>]
    [] a = "item" -> [Member(s, ind) EXCEPT !.top = "val"]
    [] a = "close" -> Shut(s, ind)
Run(calls, ind) == FoldLeft(LAMBDA s, c : Call(s, c.a, c.v, ind), Begin, calls)

(* The same output, declaratively: the layout of a document. *)
\* a tree is [k, key, v, c]; its block is the lines it takes, the first of which goes on the
\* line where the tree begins
Join(l, m) == [l EXCEPT ![Len(l)].t = @ \o m[1].t] \o Tail(m)
RECURSIVE Block(_, _, _)
Block(tree, d, ind) ==
  IF tree.k \in Scalars THEN <<Line(d, <<Tok(tree.k, tree.v)>>)>>
  ELSE LET opening == <<Line(d, <<Tok(IF tree.k = "obj" THEN "{" ELSE "[", <<>>)>>)>>
           closing == Tok(IF tree.k = "obj" THEN "}" ELSE "]", <<>>)
           n == Len(tree.c)
           label(i) == IF tree.k = "obj" THEN <<Tok("key", tree.c[i].key)>> ELSE <<>>
           mine(i) == Join(<<Line(d + 1, label(i))>>, Block(tree.c[i], d + 1, ind))
           ended(i) == IF i < n THEN Emit(mine(i), Tok(",", <<>>)) ELSE mine(i)
           add(l, i) == IF ind THEN l \o ended(i) ELSE Join(l, ended(i))
           body == FoldLeft(add, opening, [i \in 1..n |-> i])
       IN IF n > 0 /\ ind THEN Append(body, Line(d, <<closing>>)) ELSE Emit(body, closing)
Layout(tree, ind) == Block(tree, 0, ind)
=============================================================================

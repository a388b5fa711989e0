------------------------------- MODULE Outliner ------------------------------
(***************************************************************************)
(* The stack protocol between types and formats.  The stack P holds items: *)
(*   "val" a value, "str" an opened string, "key" the opened key of an     *)
(*   entry whose value lies below it, "struct", "tuple", "list", "obj"     *)
(* and a format may only be sent a call that the item on top permits.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Top(P) == IF P = <<>> THEN "none" ELSE P[Len(P)]
Pop(P) == Front(P)
Swap(P, x) == Append(Front(P), x)

\* calls on a value that pop it
Leaves == {"put", "tag", "null"}
\* what the top item has to be for a call
Needs(c) ==
  CASE c \in Leaves \cup {"isnull", "notnull", "open_str", "open_struct", "open_tuple", "open_list", "open_obj"} -> "val"
    [] c \in {"field", "close_struct"} -> "struct"
    [] c \in {"elem", "close_tuple"} -> "tuple"
    [] c \in {"item", "next_item", "end_list", "close_list"} -> "list"
    [] c \in {"entry", "next_entry", "no_entry", "end_obj", "close_obj"} -> "obj"
    [] c \in {"append", "close_str"} -> "str"
    [] c = "end_key" -> "key"
\* calls that the object permits as well: an object may be read as a struct
May(P, c) == Top(P) = Needs(c) \/ (c = "field" /\ Top(P) = "obj") \/ (c = "entry" /\ Top(P) = "struct")
             \/ (c \in {"append", "close_str"} /\ Top(P) = "key")
After(P, c) ==
  CASE c \in Leaves \cup {"isnull"} -> Pop(P)
    [] c \in {"notnull", "no_entry", "append"} -> P
    [] c = "open_str" -> Swap(P, "str")
    [] c = "open_struct" -> Swap(P, "struct")
    [] c = "open_tuple" -> Swap(P, "tuple")
    [] c = "open_list" -> Swap(P, "list")
    [] c = "open_obj" -> Swap(P, "obj")
    [] c \in {"field", "elem", "item", "next_item", "entry"} -> Append(P, "val")
    [] c = "next_entry" -> P \o <<"val", "key">>
    [] c \in {"close_struct", "close_tuple", "close_list", "close_obj", "end_list", "end_obj", "close_str", "end_key"} -> Pop(P)
\* all calls, in order, are permitted, and where they lead
Conforms(P, cs) == FoldLeft(LAMBDA s, c : IF s.ok /\ May(s.P, c) THEN [ok |-> TRUE, P |-> After(s.P, c)]
                                          ELSE [s EXCEPT !.ok = FALSE], [ok |-> TRUE, P |-> P], cs)
=============================================================================

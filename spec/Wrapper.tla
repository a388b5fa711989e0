-------------------------------- MODULE Wrapper ------------------------------
(***************************************************************************)
(* Programs over the helper wrappers.  A program holds a stack H of        *)
(* handles, of which only the innermost can be used (the borrow checker    *)
(* sees to that); every handle stands for the item at depth d of the       *)
(* protocol stack P.  A handle may be dropped at any time; its item then   *)
(* stays on the stack.                                                     *)
(*                                                                         *)
(* An operation is legal iff the item of its handle is on top of the stack *)
(* (and the announced length of a list is kept); what is illegal has to    *)
(* panic before the format is called, and what is legal may not.           *)
(*                                                                         *)
(* A handle is [k, d, rem, key]: its kind ("value", "struct", "tuple",     *)
(* "list", "obj", "entry", "inline": a struct inlined in an object,        *)
(* "scope": a closure that has to consume the value it is given, and       *)
(* "scopef": one that then refuses it with an error), its depth, the items *)
(* still to come (-1: not known), whether the key of an entry has been     *)
(* read.                                                                   *)
(* An operation is [o, a].                                                 *)
(***************************************************************************)
EXTENDS Outliner

Handle(k, d, rem) == [k |-> k, d |-> d, rem |-> rem, key |-> FALSE]
Top_(H) == H[Len(H)]
\* sessions start in a closure that is given a value, a struct or a tuple, or with a value that
\* was made over a flag that says that it is consumed: it has nothing on the stack
Start(k) == IF k = "stale" THEN [P |-> <<>>, H |-> <<Handle("value", 1, -1)>>, F |-> <<TRUE>>]
            ELSE [P |-> <<IF k = "value" THEN "val" ELSE k>>, H |-> <<Handle("scope", 1, -1), Handle(k, 1, -1)>>,
                  F |-> <<FALSE, k # "value">>]
Over(s) == s.H = <<>>

OnTop(s, h) == Len(s.P) = h.d
ValueOps == {"put", "struct", "tuple", "list", "obj", "null", "valid", "peek"}
Ops(k) == CASE k = "value" -> ValueOps \cup {"drop"}
            [] k = "struct" -> {"field", "close", "ready", "drop"}
            [] k = "inline" -> {"field", "ready", "drop"}
            [] k = "tuple" -> {"elem", "close", "drop"}
            [] k = "list" -> {"push", "next", "close", "rem", "drop"}
            [] k = "obj" -> {"entry", "try", "nextentry", "inline", "close", "drop"}
            [] k = "entry" -> {"key", "value", "drop"}
            [] OTHER -> {"drop"}

Legal(s, op) ==
  LET h == Top_(s.H) IN
  CASE op.o = "drop" -> (CASE h.k \in {"scope", "scopef"} -> Len(s.P) < h.d
                           [] h.k = "inline" -> OnTop(s, h)
                           [] OTHER -> TRUE)
    [] op.o = "key" -> ~h.key
    [] op.o \in {"value", "rem"} -> TRUE
    [] op.o = "push" -> OnTop(s, h) /\ h.rem # 0
    [] op.o = "close" /\ h.k = "list" -> OnTop(s, h) /\ h.rem < 1
    [] OTHER -> OnTop(s, h)

\* whether a list has another item: known from the length, or told by the data
More(h, a) == IF h.rem >= 0 THEN h.rem > 0 ELSE a = 1
\* the calls the format gets; nulls tells whether the format has a null literal
Raw(s, op, nulls) ==
  LET h == Top_(s.H) IN
  CASE op.o = "put" -> <<"put">>
    [] op.o = "struct" -> <<"open_struct">>
    [] op.o = "tuple" -> <<"open_tuple">>
    [] op.o = "list" -> <<"open_list">>
    [] op.o = "obj" -> <<"open_obj">>
    [] op.o = "null" -> IF nulls THEN <<IF op.a = 1 THEN "isnull" ELSE "notnull">> ELSE <<>>
    [] op.o = "field" -> <<"field">>
    [] op.o = "elem" -> <<"elem">>
    [] op.o = "push" -> <<"item">>
    [] op.o = "next" -> <<IF More(h, op.a) THEN "next_item" ELSE "end_list">>
    [] op.o = "entry" -> <<"entry">>
    [] op.o = "try" -> <<IF op.a = 1 THEN "entry" ELSE "no_entry">>
    [] op.o = "nextentry" -> <<IF op.a = 1 THEN "next_entry" ELSE "end_obj">>
    [] op.o = "key" -> <<"end_key">>
    [] op.o = "value" -> IF h.key THEN <<>> ELSE <<"end_key">>
    [] op.o = "close" -> <<CASE h.k = "struct" -> "close_struct" [] h.k = "tuple" -> "close_tuple"
                             [] h.k = "list" -> "close_list" [] OTHER -> "close_obj">>
    [] OTHER -> <<>>
\* what the program sees
Out(s, op, nulls) ==
  LET h == Top_(s.H) IN
  CASE op.o = "null" -> IF nulls /\ op.a = 1 THEN "ok" ELSE "none"
    [] op.o = "next" -> IF More(h, op.a) THEN "ok" ELSE "none"
    [] op.o \in {"try", "nextentry"} -> IF op.a = 1 THEN "ok" ELSE "none"
    [] op.o = "drop" /\ h.k = "scopef" -> "refused"
    [] OTHER -> "ok"
Rem(s, op) == IF op.o = "rem" THEN Top_(s.H).rem ELSE -1

\* the design of the wrappers: F[d] is the flag that says that the item at depth d has been popped
SetF(F, d, b) == IF d <= Len(F) THEN [F EXCEPT ![d] = b] ELSE Append(F, b)
Flag(s, d) == s.F[d]

Do(s, op, nulls) ==
  LET h == Top_(s.H)
      P == Conforms(s.P, Raw(s, op, nulls)).P
      gone == Front(s.H)
      with(x) == Append(s.H, x)
      into(x, F) == [P |-> P, H |-> Append(gone, x), F |-> F]
      opened(k, rem) == into(Handle(k, h.d, rem), SetF(s.F, h.d + 1, TRUE))
      child(k) == [P |-> P, H |-> with(Handle(k, h.d + 1, -1)), F |-> SetF(s.F, h.d + 1, FALSE)]
      consumed == [P |-> P, H |-> gone, F |-> SetF(s.F, h.d, TRUE)]
      took == [s EXCEPT !.H[Len(s.H)].rem = IF @ > 0 THEN @ - 1 ELSE @]
  IN
  CASE op.o = "put" -> consumed
    [] op.o \in {"struct", "tuple", "obj"} -> opened(op.o, -1)
    [] op.o = "list" -> opened("list", op.a)
    [] op.o = "null" -> IF nulls /\ op.a = 1 THEN [s EXCEPT !.P = P, !.F = SetF(@, h.d, TRUE)] ELSE s
    \* the closure gets the value; the scope stays
    [] op.o = "valid" -> [s EXCEPT !.H = gone \o <<Handle(IF op.a = 1 THEN "scopef" ELSE "scope", h.d, -1), h>>]
    [] op.o \in {"field", "elem", "entry"} -> child("value")
    [] op.o = "push" -> [child("value") EXCEPT !.H = Append(took.H, Handle("value", h.d + 1, -1))]
    [] op.o = "next" -> IF More(h, op.a)
                        THEN [child("value") EXCEPT !.H = Append(took.H, Handle("value", h.d + 1, -1))]
                        ELSE [P |-> P, H |-> s.H, F |-> SetF(SetF(s.F, h.d + 1, FALSE), h.d, TRUE)]
    [] op.o = "try" -> IF op.a = 1 THEN child("value") ELSE s
    [] op.o = "nextentry" -> IF op.a = 1 THEN child("entry")
                             ELSE [P |-> P, H |-> s.H, F |-> SetF(SetF(s.F, h.d + 1, FALSE), h.d, TRUE)]
    [] op.o = "inline" -> [s EXCEPT !.H = with(Handle("inline", h.d, -1))]
    [] op.o = "key" -> [s EXCEPT !.P = P, !.H[Len(s.H)].key = TRUE]
    [] op.o = "value" -> into(Handle("value", h.d, -1), s.F)
    [] op.o = "close" -> consumed
    \* an error ends the program
    [] op.o = "drop" -> [s EXCEPT !.H = IF h.k = "scopef" THEN <<>> ELSE gone]
    [] OTHER -> s

\* what the flags permit
FlagsPermit(s, op) ==
  LET h == Top_(s.H) IN
  CASE op.o \in ValueOps -> ~Flag(s, h.d)
    [] op.o = "drop" -> (CASE h.k \in {"scope", "scopef"} -> Flag(s, h.d) [] h.k = "inline" -> Flag(s, h.d + 1) [] OTHER -> TRUE)
    [] op.o = "key" -> ~h.key
    [] op.o \in {"value", "rem"} -> TRUE
    [] op.o = "push" -> Flag(s, h.d + 1) /\ h.rem # 0
    [] op.o = "close" /\ h.k = "list" -> Flag(s, h.d + 1) /\ h.rem < 1
    [] OTHER -> Flag(s, h.d + 1)
=============================================================================

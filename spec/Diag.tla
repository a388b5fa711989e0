-------------------------------- MODULE Diag --------------------------------
(***************************************************************************)
(* What the error that ends a reader session says.  A message is           *)
(*   kind   the variant of DeserializeErrorMessage; "Name" and "Index" are *)
(*          those of the custom errors of a rejected choice,               *)
(*   types  the types it lists as acceptable,                              *)
(*   key    the key it names,                                              *)
(*   names, index   the names it lists as allowed, the index it rejects,   *)
(* and, of its text, `shown`, the names of types that occur in it, and     *)
(* `named`, whether it has the key or the index.                           *)
(***************************************************************************)
EXTENDS Cursor

\* the types a call accepts
Accepts(a) ==
  CASE a = "bool" -> {"bool"} [] a = "num" -> {"num"} [] a = "null" -> {"null"}
    [] a \in {"str", "char", "openstr"} -> {"str"}
    [] a = "tag" -> {"str", "num"}
    [] a = "obj" -> {"obj"} [] a = "list" -> {"arr"} [] a = "struct" -> {"obj", "arr"}
    [] OTHER -> {}

Set(q) == {q[i] : i \in 1..Len(q)}

\* the unread keys of the container on top
Unread(doc, s) == {doc[Frame(s).left[i]].key : i \in 1..Len(Frame(s).left)}

\* a value of another type: exactly the acceptable ones are listed, and displayed
Mistyped(m, a) ==
  /\ m.kind = "Expected"
  /\ Set(m.types) = Accepts(a)
  /\ Set(m.shown) = Set(m.types)

\* of an acceptable type, but not an acceptable value of it
Misvalued(m, a, d) ==
  CASE a = "tag" /\ d.k = "str" -> m.kind = "Name" /\ Set(m.names) = Set(TagNames)
    [] a = "tag" /\ d.k = "num" -> m.kind = "Index" /\ m.index = d.v[1] /\ m.named
    [] OTHER -> m.kind = "Custom"

\* What the error that call a ended in says, r being the result Cursor gives it.
Truthful(doc, s, a, key, r, m) ==
  CASE r.k = "missing" -> m.kind = "MissingKey" /\ m.named
                          /\ m.key = (IF s.top.k = "virt" THEN s.top.x ELSE key)
    [] r.k = "extra"   -> m.kind = "ExtraKey" /\ m.named /\ m.key \in Unread(doc, s)
    [] r.k = "few"     -> m.kind = "MissingItems"
    [] r.k = "many"    -> m.kind = "ExcessItems"
    [] r.k = "err" /\ s.top.k = "val" ->
         IF doc[s.top.n].k \in Accepts(a) THEN Misvalued(m, a, doc[s.top.n]) ELSE Mistyped(m, a)
    \* the rest of a string that was to be at its end, and a null without a name
    [] r.k = "err" -> m.kind = "Custom"
    [] OTHER -> TRUE
=============================================================================

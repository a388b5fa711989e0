------------------------------ MODULE WrapperMC ------------------------------
(***************************************************************************)
(* All programs over the wrappers up to a nesting depth (and, when they    *)
(* are printed, a length).                                                 *)
(***************************************************************************)
EXTENDS Wrapper, TLC, Json
CONSTANTS DEPTH, LONG, MAXLEN, PRINT,
          READ,   \* the format is read from
          JSON,   \* the format is JSON-like: it has objects
          NULLS
VARIABLES s, log, ended
vars == <<s, log, ended>>

LENS == {-1} \cup (0..MAXLEN)
O(o, a) == [o |-> o, a |-> a]
Args(o) == CASE o = "list" -> LENS \ (IF ~READ /\ ~JSON THEN {-1} ELSE {})
             [] o = "null" -> IF NULLS THEN {0, 1} ELSE {0}
             [] o = "next" -> IF Top_(s.H).rem >= 0 THEN {0} ELSE {0, 1}
             [] o \in {"try", "nextentry", "valid"} -> {0, 1}
             [] OTHER -> {0}
Can(o) == /\ o \in {"null", "valid", "next", "try", "nextentry", "inline", "key", "value"} => READ
          /\ o \in {"obj", "entry", "try", "nextentry", "inline"} => JSON
          \* nesting of the bound
          /\ o \in {"struct", "tuple", "list", "obj"} => Top_(s.H).d < DEPTH
          /\ o \in {"valid", "inline"} => Len(s.H) < 2 * DEPTH
\* queries twice in a row, and validating what is validated, add nothing
Fruitful(o) == ~(o \in {"rem", "ready", "null", "peek"} /\ log # <<>> /\ log[Len(log)].o = o
                     /\ Len(s.P) = Top_(s.H).d)
               /\ ~(o = "valid" /\ Len(s.H) > 1 /\ s.H[Len(s.H) - 1].k \in {"scope", "scopef"})

Step(op, legal) == [o |-> op.o, a |-> op.a, out |-> IF legal THEN Out(s, op, NULLS) ELSE "panic",
                    rem |-> Rem(s, op), raw |-> IF legal THEN Raw(s, op, NULLS) ELSE <<>>]
Init == \E k \in {"value", "struct", "tuple", "stale"} :
          s = Start(k) /\ log = <<[o |-> "with", a |-> 0, out |-> k, rem |-> -1, raw |-> <<>>]>> /\ ended = FALSE
Next ==
  /\ ~ended /\ (PRINT => Len(log) <= LONG)
  /\ \E o \in Ops(Top_(s.H).k) : Can(o) /\ Fruitful(o) /\ \E a \in Args(o) :
       LET op == O(o, a) legal == Legal(s, op) IN
       /\ log' = IF PRINT THEN Append(log, Step(op, legal)) ELSE <<[o |-> o, out |-> IF legal /\ Out(s, op, NULLS) = "refused" THEN "refused" ELSE ""]>>
       /\ s' = IF legal THEN Do(s, op, NULLS) ELSE s
       /\ ended' = (~legal \/ Over(s'))
       /\ (PRINT /\ (ended' \/ Len(log') = LONG + 1)) =>
            PrintT(ToJson([read |-> READ, json |-> JSON, nulls |-> NULLS, ops |-> log']))
Spec == Init /\ [][Next]_vars

Reachable(o, a) == o \in Ops(Top_(s.H).k) /\ a \in Args(o)
\* the flags are the right design: they permit exactly what is legal
Flags == ~ended => \A o \in Ops(Top_(s.H).k) : \A a \in Args(o) : FlagsPermit(s, O(o, a)) <=> Legal(s, O(o, a))
\* legal operations keep the protocol
Kept == ~ended => \A o \in Ops(Top_(s.H).k) : \A a \in Args(o) :
          Legal(s, O(o, a)) => Conforms(s.P, Raw(s, O(o, a), NULLS)).ok
\* illegal ones would break it: they need an item that is not on top, or go against the announced
\* length, or leave a closure or an inlined struct with a value pending, or read a key again
Needed == ~ended => \A o \in Ops(Top_(s.H).k) : \A a \in Args(o) :
            ~Legal(s, O(o, a)) =>
               \/ Len(s.P) # Top_(s.H).d
               \/ o \in {"push", "close"} /\ Top_(s.H).rem >= 0
               \/ o = "key"
               \/ o = "drop" /\ Top_(s.H).k \in {"scope", "scopef"}
\* a session that ends well has consumed everything
\* (unless a closure refused its value)
Whole == ended /\ Over(s) => s.P = <<>> \/ log[Len(log)].out = "refused"
Inv == Flags /\ Kept /\ Needed /\ Whole
=============================================================================

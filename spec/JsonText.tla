------------------------------ MODULE JsonText ------------------------------
(* The JSON text format at character level, as a deterministic pushdown      *)
(* transducer over character classes.                                        *)
(*                                                                            *)
(* A configuration is (q, stk): a control state and the stack of open         *)
(* containers ("A" array, "O" object).  One step depends on q, on the top of  *)
(* the stack ("-" when it is empty) and on the class of the character, and    *)
(* yields the next control, a stack operation, the outputs and, if the text   *)
(* cannot be continued to a well-formed one, an error with the place where    *)
(* it is reported.  The whole table is printed (see Table) and interpreted by *)
(* the conformance harness on arbitrary texts; JsonTextMC checks it against   *)
(* the declarative grammar JsonGrammar.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* Character classes: <<name, lowest code, highest code>>; every other code   *)
(* point is in class "ot".                                                    *)
Ranges == <<
  <<"tb", 9, 9>>, <<"nl", 10, 10>>, <<"tb", 13, 13>>,
  <<"ct", 0, 8>>, <<"ct", 11, 12>>, <<"ct", 14, 31>>,
  <<"sp", 32, 32>>, <<"qt", 34, 34>>, <<"bs", 92, 92>>, <<"sl", 47, 47>>,
  <<"st", 42, 42>>, <<"lb", 91, 91>>, <<"rb", 93, 93>>, <<"lc", 123, 123>>,
  <<"rc", 125, 125>>, <<"cm", 44, 44>>, <<"co", 58, 58>>, <<"mi", 45, 45>>,
  <<"pl", 43, 43>>, <<"dt", 46, 46>>,
  <<"z0", 48, 48>>, <<"d1", 49, 55>>, <<"d8", 56, 57>>,
  <<"xa", 97, 97>>, <<"xb", 98, 98>>, <<"hA", 65, 66>>,
  <<"hc", 99, 99>>, <<"hc", 67, 67>>, <<"hc", 70, 70>>,
  <<"xd", 100, 100>>, <<"xd", 68, 68>>, <<"xe", 101, 101>>, <<"xE", 69, 69>>,
  <<"xf", 102, 102>>, <<"xl", 108, 108>>, <<"xn", 110, 110>>, <<"xr", 114, 114>>,
  <<"xs", 115, 115>>, <<"xt", 116, 116>>, <<"xu", 117, 117>> >>

Classes == {Ranges[i][1] : i \in 1..Len(Ranges)} \cup {"ot"}

WS     == {"sp", "tb", "nl"}
Digits == {"z0", "d1", "d8"}
Dig19  == {"d1", "d8"}
Hex    == Digits \cup {"xa", "xb", "hA", "hc", "xd", "xe", "xE", "xf"}
HexHi  == {"d8", "xa", "xb", "hA"}              \* second digit of D800..DBFF
HexLo  == {"hc", "xd", "xe", "xE", "xf"}        \* second digit of DC00..DFFF
Ctl    == {"ct", "tb", "nl"}                    \* may not occur raw in a string

(* Controls.  "E" is the control after a complete value: with an empty stack  *)
(* it is the end of the text.                                                 *)
WsControls  == {"V", "V1", "K1", "K", "C", "E"}
StrTails    == {"str", "esc", "u1", "u2", "u3", "u4", "ud", "uh3", "uh4", "us3", "us4",
                "lb", "lu", "l1", "l2", "l3", "l4", "m2", "m3", "m4"}
NumControls == {"nm", "n0", "ni", "nd", "nf", "ne", "ns", "nx"}
NumFinal    == {"n0", "ni", "nf", "nx"}
LitControls == {"t1", "t2", "t3", "f1", "f2", "f3", "f4", "z1", "z2", "z3"}
Str(k, t)   == k \o "." \o t
Com(t, r)   == t \o ":" \o r
StrControls == {Str(k, t) : k \in {"v", "k"}, t \in StrTails}
ComControls == {Com(t, r) : t \in {"c0", "cl", "cb", "cs"}, r \in WsControls}
Controls    == WsControls \cup NumControls \cup LitControls \cup StrControls \cup ComControls

R(n, op, out) == [n |-> n, op |-> op, out |-> out, err |-> "no", what |-> "no"]
Go(n)         == R(n, "none", <<>>)
Out(n, o)     == R(n, "none", <<o>>)
Fault(where, what) == [n |-> "X", op |-> "none", out |-> <<>>, err |-> where, what |-> what]
Err(where)    == Fault(where, CASE where = "cur" -> "char" [] where = "lit" -> "literal" [] where = "esc" -> "escape")
\* where: "cur" the character itself, "lit" the start of the literal, "esc" the
\* character after the backslash of the escape sequence

(* The first character of a value.                                            *)
StartValue(c) ==
  CASE c = "qt"     -> Out(Str("v", "str"), "S")
    [] c = "lb"     -> R("V1", "A", <<"[">>)
    [] c = "lc"     -> R("K1", "O", <<"{">>)
    [] c = "mi"     -> Out("nm", "N")
    [] c = "z0"     -> Out("n0", "N")
    [] c \in Dig19  -> Out("ni", "N")
    [] c = "xt"     -> Out("t1", "L")
    [] c = "xf"     -> Out("f1", "L")
    [] c = "xn"     -> Out("z1", "L")
    [] OTHER        -> Fault("cur", "value")

(* Where whitespace is allowed.                                               *)
Token(q, top, c) ==
  CASE q = "V"  -> StartValue(c)
    [] q = "V1" -> IF c = "rb" THEN R("E", "pop", <<"]">>) ELSE StartValue(c)
    [] q = "K1" -> IF c = "rc" THEN R("E", "pop", <<"}">>)
                   ELSE IF c = "qt" THEN Out(Str("k", "str"), "K") ELSE Err("cur")
    [] q = "K"  -> IF c = "qt" THEN Out(Str("k", "str"), "K") ELSE Err("cur")
    [] q = "C"  -> IF c = "co" THEN Go("V") ELSE Err("cur")
    [] q = "E"  -> IF top = "A" /\ c = "cm" THEN Go("V")
                   ELSE IF top = "A" /\ c = "rb" THEN R("E", "pop", <<"]">>)
                   ELSE IF top = "O" /\ c = "cm" THEN Go("K")
                   ELSE IF top = "O" /\ c = "rc" THEN R("E", "pop", <<"}">>)
                   ELSE Err("cur")

Ws(q, top, c, comments) ==
  IF c \in WS THEN Go(q)
  ELSE IF c = "sl" /\ comments THEN Go(Com("c0", q))
  ELSE Token(q, top, c)

Comment(t, r, c) ==
  CASE t = "c0" -> IF c = "sl" THEN Go(Com("cl", r))
                   ELSE IF c = "st" THEN Go(Com("cb", r)) ELSE Err("cur")
    [] t = "cl" -> IF c = "nl" THEN Go(r) ELSE Go(Com("cl", r))
    [] t = "cb" -> IF c = "st" THEN Go(Com("cs", r)) ELSE Go(Com("cb", r))
    [] t = "cs" -> IF c = "sl" THEN Go(r)
                   ELSE IF c = "st" THEN Go(Com("cs", r)) ELSE Go(Com("cb", r))

(* Inside a quoted string; k says whether it is a key.                        *)
EscCode(c) ==   \* the character denoted by a one-letter escape
  CASE c = "qt" -> "e34" [] c = "bs" -> "e92" [] c = "sl" -> "e47"
    [] c = "xb" -> "e8"  [] c = "xf" -> "e12" [] c = "xn" -> "e10"
    [] c = "xr" -> "e13" [] c = "xt" -> "e9"  [] OTHER -> "no"

HexStep(c, set, n, out) ==
  IF c \in set THEN R(n, "none", out) ELSE Err("esc")

StringStep(k, t, c) ==
  LET to(x) == Str(k, x) IN
  CASE t = "str" -> IF c = "qt" THEN (IF k = "k" THEN Out("C", "k") ELSE Out("E", "s"))
                    ELSE IF c = "bs" THEN Go(to("esc"))
                    ELSE IF c \in Ctl THEN Err("cur")
                    ELSE Out(to("str"), "c")
    [] t = "esc" -> IF c = "xu" THEN Out(to("u1"), "x")
                    ELSE IF EscCode(c) # "no" THEN R(to("str"), "none", <<"x", EscCode(c)>>)
                    ELSE Fault("cur", "escape")
    [] t = "u1"  -> IF c = "xd" THEN Out(to("ud"), "h") ELSE HexStep(c, Hex, to("u2"), <<"h">>)
    [] t = "u2"  -> HexStep(c, Hex, to("u3"), <<"h">>)
    [] t = "u3"  -> HexStep(c, Hex, to("u4"), <<"h">>)
    [] t = "u4"  -> HexStep(c, Hex, to("str"), <<"h", "u">>)
    [] t = "ud"  -> IF c \in HexHi THEN Out(to("uh3"), "h")
                    ELSE IF c \in HexLo THEN Out(to("us3"), "h")
                    ELSE HexStep(c, Hex, to("u3"), <<"h">>)
    \* DC00..DFFF first: a lone low surrogate, wrong once all digits are there
    [] t = "us3" -> HexStep(c, Hex, to("us4"), <<"h">>)
    [] t = "us4" -> Err("esc")
    [] t = "uh3" -> HexStep(c, Hex, to("uh4"), <<"h">>)
    [] t = "uh4" -> HexStep(c, Hex, to("lb"), <<"h", "p">>)
    [] t = "lb"  -> HexStep(c, {"bs"}, to("lu"), <<>>)
    [] t = "lu"  -> HexStep(c, {"xu"}, to("l1"), <<>>)
    [] t = "l1"  -> IF c = "xd" THEN Out(to("l2"), "h") ELSE HexStep(c, Hex, to("m2"), <<"h">>)
    [] t = "l2"  -> IF c \in HexLo THEN Out(to("l3"), "h") ELSE HexStep(c, Hex, to("m3"), <<"h">>)
    [] t = "l3"  -> HexStep(c, Hex, to("l4"), <<"h">>)
    [] t = "l4"  -> HexStep(c, Hex, to("str"), <<"h", "U">>)
    \* not a low surrogate: wrong once all digits are there
    [] t = "m2"  -> HexStep(c, Hex, to("m3"), <<"h">>)
    [] t = "m3"  -> HexStep(c, Hex, to("m4"), <<"h">>)
    [] t = "m4"  -> Err("esc")

(* Numbers end at the first character that cannot belong to them; that        *)
(* character is then treated as following a complete value.                   *)
NumCont(q, c) ==
  CASE q = "nm" -> IF c = "z0" THEN "n0" ELSE IF c \in Dig19 THEN "ni" ELSE "X"
    [] q = "n0" -> IF c = "dt" THEN "nd" ELSE IF c \in {"xe", "xE"} THEN "ne" ELSE "end"
    [] q = "ni" -> IF c \in Digits THEN "ni" ELSE IF c = "dt" THEN "nd"
                   ELSE IF c \in {"xe", "xE"} THEN "ne" ELSE "end"
    [] q = "nd" -> IF c \in Digits THEN "nf" ELSE "X"
    [] q = "nf" -> IF c \in Digits THEN "nf" ELSE IF c \in {"xe", "xE"} THEN "ne" ELSE "end"
    [] q = "ne" -> IF c \in Digits THEN "nx" ELSE IF c \in {"pl", "mi"} THEN "ns" ELSE "X"
    [] q = "ns" -> IF c \in Digits THEN "nx" ELSE "X"
    [] q = "nx" -> IF c \in Digits THEN "nx" ELSE "end"

Number(q, top, c, comments) ==
  LET n == NumCont(q, c) IN
  IF n = "X" THEN Fault("lit", "number")
  ELSE IF n = "end" THEN LET r == Ws("E", top, c, comments) IN
                         [r EXCEPT !.out = <<"n">> \o r.out]
  ELSE Go(n)

LitNext == [t1 |-> <<"xr", "t2", "">>, t2 |-> <<"xu", "t3", "">>, t3 |-> <<"xe", "E", "T">>,
            f1 |-> <<"xa", "f2", "">>, f2 |-> <<"xl", "f3", "">>, f3 |-> <<"xs", "f4", "">>,
            f4 |-> <<"xe", "E", "F">>,
            z1 |-> <<"xu", "z2", "">>, z2 |-> <<"xl", "z3", "">>, z3 |-> <<"xl", "E", "Z">>]

Literal(q, c) ==
  LET l == LitNext[q] IN
  IF c # l[1] THEN Err("lit")
  ELSE IF l[3] = "" THEN Go(l[2]) ELSE Out(l[2], l[3])

(* One step of the transducer.                                                *)
Step(q, top, c, comments) ==
  IF q \in WsControls THEN Ws(q, top, c, comments)
  ELSE IF q \in NumControls THEN Number(q, top, c, comments)
  ELSE IF q \in LitControls THEN Literal(q, c)
  ELSE IF q \in StrControls THEN
    LET k == CHOOSE x \in {"v", "k"} : \E t \in StrTails : q = Str(x, t)
        t == CHOOSE y \in StrTails : q = Str(k, y)
    IN  StringStep(k, t, c)
  ELSE
    LET r == CHOOSE x \in WsControls : \E t \in {"c0", "cl", "cb", "cs"} : q = Com(t, x)
        t == CHOOSE y \in {"c0", "cl", "cb", "cs"} : q = Com(y, r)
    IN  Comment(t, r, c)

(* The end of the text.  "esc": inside an escape sequence that is already      *)
(* wrong or half of a pair; the end may be reported or the escape sequence.    *)
AtEnd(q, top) ==
  IF q \in NumControls
  THEN IF q \notin NumFinal THEN "lit" ELSE IF top = "-" THEN "accept" ELSE "end"
  ELSE IF q \in LitControls THEN "lit"
  ELSE IF q \in {Str(k, t) : k \in {"v", "k"}, t \in {"lb", "lu", "l1", "l2", "l3", "l4", "m2", "m3", "m4", "us3", "us4"}} THEN "esc"
  ELSE IF q = "E" /\ top = "-" THEN "accept" ELSE "end"

Tops == {"-", "A", "O"}

(* Running a sequence of classes from a configuration.                        *)
Top(stk) == IF stk = <<>> THEN "-" ELSE Head(stk)
Apply(cfg, c, comments) ==
  IF cfg.q = "X" THEN cfg ELSE
  LET r == Step(cfg.q, Top(cfg.stk), c, comments) IN
  [q   |-> r.n,
   stk |-> CASE r.op = "none" -> cfg.stk
             [] r.op = "pop"  -> Tail(cfg.stk)
             [] OTHER         -> <<r.op>> \o cfg.stk]
RECURSIVE Run(_, _, _)
Run(cfg, w, comments) ==
  IF w = <<>> THEN cfg ELSE Run(Apply(cfg, Head(w), comments), Tail(w), comments)
Start == [q |-> "V", stk |-> <<>>]
Accepts(cfg) == cfg.q # "X" /\ AtEnd(cfg.q, Top(cfg.stk)) = "accept"

(* A continuation to a well-formed text, for every reachable configuration:   *)
(* what is not an error can still be completed.                               *)
RECURSIVE Close(_)
Close(stk) == IF stk = <<>> THEN <<>>
              ELSE <<IF Head(stk) = "A" THEN "rb" ELSE "rc">> \o Close(Tail(stk))
AfterVal(q) ==  \* from a whitespace control to the control after a value
  CASE q = "V" -> <<"z0">> [] q = "V1" -> <<"z0">> [] q = "E" -> <<>>
    [] q = "K" -> <<"qt", "qt", "co", "z0">> [] q = "K1" -> <<"qt", "qt", "co", "z0">>
    [] q = "C" -> <<"co", "z0">>
NumRest(q) == IF q \in NumFinal THEN <<>> ELSE <<"z0">>
LitRest(q) ==
  CASE q = "t1" -> <<"xr", "xu", "xe">> [] q = "t2" -> <<"xu", "xe">> [] q = "t3" -> <<"xe">>
    [] q = "f1" -> <<"xa", "xl", "xs", "xe">> [] q = "f2" -> <<"xl", "xs", "xe">>
    [] q = "f3" -> <<"xs", "xe">> [] q = "f4" -> <<"xe">>
    [] q = "z1" -> <<"xu", "xl", "xl">> [] q = "z2" -> <<"xl", "xl">> [] q = "z3" -> <<"xl">>
StrRest(t) ==
  CASE t = "str" -> <<"qt">> [] t = "esc" -> <<"xn", "qt">>
    [] t = "u1" -> <<"z0", "z0", "z0", "z0", "qt">> [] t = "u2" -> <<"z0", "z0", "z0", "qt">>
    [] t = "u3" -> <<"z0", "z0", "qt">> [] t = "u4" -> <<"z0", "qt">>
    [] t = "ud" -> <<"z0", "z0", "z0", "qt">>
    [] t = "uh3" -> <<"z0", "z0", "bs", "xu", "xd", "hc", "z0", "z0", "qt">>
    [] t = "uh4" -> <<"z0", "bs", "xu", "xd", "hc", "z0", "z0", "qt">>
    [] t = "lb" -> <<"bs", "xu", "xd", "hc", "z0", "z0", "qt">>
    [] t = "lu" -> <<"xu", "xd", "hc", "z0", "z0", "qt">>
    [] t = "l1" -> <<"xd", "hc", "z0", "z0", "qt">> [] t = "l2" -> <<"hc", "z0", "z0", "qt">>
    [] t = "l3" -> <<"z0", "z0", "qt">> [] t = "l4" -> <<"z0", "qt">>
    [] OTHER -> <<>>
ComRest(t) == CASE t = "c0" -> <<"st", "st", "sl">> [] t = "cl" -> <<"nl">>
                [] t = "cb" -> <<"st", "sl">> [] t = "cs" -> <<"sl">>
Complete(cfg) ==
  LET q == cfg.q IN
  (IF q \in WsControls THEN AfterVal(q)
   ELSE IF q \in NumControls THEN NumRest(q)
   ELSE IF q \in LitControls THEN LitRest(q)
   ELSE IF q \in StrControls THEN
     LET k == CHOOSE x \in {"v", "k"} : \E t \in StrTails : q = Str(x, t)
         t == CHOOSE y \in StrTails : q = Str(k, y)
     IN  StrRest(t) \o (IF k = "k" THEN AfterVal("C") ELSE <<>>)
   ELSE LET r == CHOOSE x \in WsControls : \E t \in {"c0", "cl", "cb", "cs"} : q = Com(t, x)
            t == CHOOSE y \in {"c0", "cl", "cb", "cs"} : q = Com(y, r)
        IN  ComRest(t) \o AfterVal(r))
  \o Close(cfg.stk)
\* a lone low surrogate is doomed but only reported with its last digit
Doomed(q) == q \in {Str(k, t) : k \in {"v", "k"}, t \in {"us3", "us4", "m2", "m3", "m4"}}

(* What the message of an error may say, for each kind of fault; "end", "lit"  *)
(* and "esc" are those of AtEnd.  Where a value should start there is none, so  *)
(* that it is not of the expected type is as true as that the character is      *)
(* unexpected.                                                                  *)
Truth == [char    |-> {"UnexpectedChar"},
          value   |-> {"UnexpectedChar", "Expected"},
          literal |-> {"InvalidLiteral"},
          number  |-> {"InvalidLiteral", "Expected"},    \* malformed: it is no number
          escape  |-> {"UnrecognizedEscape"},
          end     |-> {"UnexpectedEof"},
          lit     |-> {"UnexpectedEof", "InvalidLiteral"},
          esc     |-> {"UnexpectedEof", "UnrecognizedEscape"}]
(* Lines and columns are shown counted from one.                                *)
Shown(p) == <<p.line + 1, p.col + 1>>

(* Positions of a byte stream: the step in (line, column) made by one         *)
(* character.                                                                 *)
PosStep(code, p) ==
  CASE code = 10 -> [line |-> p.line + 1, col |-> 0]
    [] code = 9  -> [line |-> p.line, col |-> p.col + 4]
    [] code = 13 -> p
    [] OTHER     -> [line |-> p.line, col |-> p.col + 1]

(* The printed table.                                                         *)
Rows(comments) ==
  {[q |-> q, top |-> top,
    eof |-> AtEnd(q, top),
    rest |-> Complete([q |-> q, stk |-> <<>>]),
    row |-> [c \in Classes |-> Step(q, top, c, comments)]] :
     q \in Controls, top \in Tops}
Table == [ranges |-> Ranges, truth |-> Truth, shown |-> Shown([line |-> 1, col |-> 7]), classes |-> Classes, strict |-> Rows(FALSE), permissive |-> Rows(TRUE),
          pos |-> [nl |-> PosStep(10, [line |-> 1, col |-> 7]), tab |-> PosStep(9, [line |-> 1, col |-> 7]),
                   cr |-> PosStep(13, [line |-> 1, col |-> 7]), other |-> PosStep(97, [line |-> 1, col |-> 7])]]
=============================================================================

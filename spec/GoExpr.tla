------------------------------- MODULE GoExpr -------------------------------
(***************************************************************************)
(* The Go expressions a rule can embed: names, literals, parentheses,      *)
(* unary and binary operators, calls, dereferences and selectors.          *)
(*                                                                         *)
(* Trees:                                                                  *)
(*   [k |-> "id", n]   [k |-> "lit", v]   [k |-> "par", x]                 *)
(*   [k |-> "un", op, x]  [k |-> "bin", op, x, y]  [k |-> "star", x]       *)
(*   [k |-> "sel", x, n]  [k |-> "call", f, a, v]   (v: variadic marker)   *)
(*                                                                         *)
(* ReadGo is a transcription of the Go scanner (with automatic semicolon   *)
(* insertion) and of the precedence rules of the Go specification; it has  *)
(* three outcomes: "ok" with a tree, "rej", and "unk" where Go's            *)
(* specification and its parser part (a byte order mark at the start,       *)
(* 0b2i) or a character of unknown class makes the difference.              *)
(***************************************************************************)
EXTENDS Text

GoKeywords == {"break", "case", "chan", "const", "continue", "default", "defer",
  "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface",
  "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}

Ops3 == {"<<=", ">>=", "&^=", "..."}
Ops2 == {"<<", ">>", "&^", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "&&", "||",
         "<-", "++", "--", "==", "!=", "<=", ">=", ":="}
Ops1 == TLCEval(CharsOf("+-*/%&|^<>=!()[]{},;.:~"))

-----------------------------------------------------------------------------
(* Scanner.  A token is [t, s]: t in {"id","kw","lit","op","semi"}.         *)
(* Result: [e |-> "" | "rej" | "unk", toks].                                *)

\* Does every _ of the literal x from position i on separate digits?  was: what
\* came before, a digit (or prefix), a separator or something else.
RECURSIVE Separates(_, _, _, _)
Separates(x, i, digits, was) ==
  IF i > Len(x) THEN was # "sep"
  ELSE IF At(x, i) = "_" THEN was = "digit" /\ Separates(x, i + 1, digits, "sep")
  ELSE IF At(x, i) \in digits THEN Separates(x, i + 1, digits, "digit")
  ELSE was # "sep" /\ Separates(x, i + 1, digits, "else")

\* Number starting at i: [e, j] with j the end.
ScanNumber(s, i) ==
  LET hexish == At(s, i) = "0" /\ At(s, i + 1) \in {"x", "X"}
      octish == At(s, i) = "0" /\ At(s, i + 1) \in {"o", "O"}
      binish == At(s, i) = "0" /\ At(s, i + 1) \in {"b", "B"}
      pre    == hexish \/ octish \/ binish
      digits == IF hexish THEN HexChar ELSE DigitChar
      dset   == digits \cup {"_"}
      d0     == IF pre THEN i + 2 ELSE i
      d1     == SpanEnd(s, d0, dset)                     \* integer digits
      dot    == At(s, d1) = "."
      d2     == IF dot THEN SpanEnd(s, d1 + 1, dset) ELSE d1
      exp    == IF hexish THEN At(s, d2) \in {"p", "P"} ELSE At(s, d2) \in {"e", "E"}
      pexp   == ~hexish /\ At(s, d2) \in {"p", "P"}
      d3     == IF exp \/ pexp THEN (IF At(s, d2 + 1) \in {"+", "-"} THEN d2 + 2 ELSE d2 + 1) ELSE d2
      d4     == IF exp \/ pexp THEN SpanEnd(s, d3, DigitChar \cup {"_"}) ELSE d2
      imag   == At(s, d4) = "i"
      d5     == IF imag THEN d4 + 1 ELSE d4
      txt    == Slice(s, i, d5)
      float  == dot \/ exp
      legacy == ~pre /\ At(s, i) = "0" /\ ~float /\ ~imag
      In(a, b) == {At(s, q) : q \in a..(b - 1)}
      toobig ==
        \/ binish /\ In(d0, d1) \cap {"2", "3", "4", "5", "6", "7", "8", "9"} # {}
        \/ (octish \/ legacy) /\ In(d0, d1) \cap {"8", "9"} # {}
      bad ==
        \/ pexp
        \/ (octish \/ binish) /\ float
        \/ In(d0, d2) \cap digits = {}                       \* no digits
        \/ exp /\ In(d3, d4) \cap DigitChar = {}             \* exponent has no digits
        \/ hexish /\ dot /\ ~exp                            \* mantissa requires p
        \/ ~Separates(txt, IF pre THEN 3 ELSE 1, digits, IF pre THEN "digit" ELSE "else")
  IN [e |-> IF bad \/ (toobig /\ ~imag) THEN "rej" ELSE IF toobig THEN "unk" ELSE "", j |-> d5]

SimpleEscape == {"a", "b", "f", "n", "r", "t", "v", "\\"}

\* End of the escape whose backslash is at i, in a literal quoted by q; 0 when there is none.
EscapeEnd(s, i, q) ==
  LET c == At(s, i + 1)
      Hexes(n) == \A k \in 1..n : At(s, i + 1 + k) \in HexChar
      LowHalf(k) == At(s, k) \in {"d", "D"} /\ At(s, k + 1) \notin {"0", "1", "2", "3", "4", "5", "6", "7"}
  IN IF c \in SimpleEscape \cup {q} THEN i + 2
     ELSE IF c \in OctalChar
     THEN IF c \in {"0", "1", "2", "3"} /\ At(s, i + 2) \in OctalChar /\ At(s, i + 3) \in OctalChar THEN i + 4 ELSE 0
     ELSE IF c = "x" THEN IF Hexes(2) THEN i + 4 ELSE 0
     ELSE IF c = "u" THEN IF Hexes(4) /\ ~LowHalf(i + 2) THEN i + 6 ELSE 0
     ELSE IF c = "U"
     THEN IF /\ Hexes(8) /\ At(s, i + 2) = "0" /\ At(s, i + 3) = "0"
             /\ \/ At(s, i + 4) = "0" /\ ~(At(s, i + 5) = "0" /\ LowHalf(i + 6))
                \/ At(s, i + 4) = "1" /\ At(s, i + 5) = "0"
          THEN i + 10 ELSE 0
     ELSE 0

\* Interpreted string: i is just after the opening quote q.  n counts characters.
RECURSIVE ScanString(_, _, _, _)
ScanString(s, i, q, n) ==
  LET Fails == [e |-> "rej", j |-> i, n |-> 0] IN
  IF i > Len(s) \/ At(s, i) = "\n" THEN Fails
  ELSE IF At(s, i) = q THEN [e |-> "", j |-> i + 1, n |-> n]
  ELSE IF At(s, i) = "\\" THEN IF EscapeEnd(s, i, q) = 0 THEN Fails ELSE ScanString(s, EscapeEnd(s, i, q), q, n + 1)
  ELSE ScanString(s, NextPos(s, i), q, n + 1)

\* End of the name characters from i on.
RECURSIVE NameEnd(_, _)
NameEnd(s, i) ==
  IF i <= Len(s) /\ (At(s, i) \in WordChar \/ WholeAt(s, i) \in OtherLetter \cup OtherDigit)
  THEN NameEnd(s, NextPos(s, i)) ELSE i

\* A character nothing is known of?
Unknown(s, i) == i <= Len(s) /\ At(s, i) \notin Ascii /\ WholeAt(s, i) \notin OtherLetter \cup OtherDigit \cup NoGoChar

RECURSIVE Without(_, _)
Without(s, c) == IF s = "" THEN "" ELSE (IF At(s, 1) = c THEN "" ELSE At(s, 1)) \o Without(SubSeq(s, 2, Len(s)), c)

EndsOperand(t) == t.t \in {"id", "lit"} \/ t.s \in {")", "]", "}", "++", "--"}
                  \/ (t.t = "kw" /\ t.s \in {"break", "continue", "fallthrough", "return"})

\* opts: [nl |-> "semi" | "space", cmt |-> "line" | "rest"].  With nl = "space"
\* line breaks are blanks; with cmt = "rest" a // comment runs to the end of the
\* text (which is what becomes of it when line breaks are turned into blanks
\* before scanning).
RECURSIVE Scan(_, _, _, _)
Scan(s, i, opts, acc) ==
  LET c    == At(s, i)
      needsemi == acc # <<>> /\ EndsOperand(acc[Len(acc)])
      semi == [t |-> "semi", s |-> "\n"]
      Fail(e) == [e |-> e, toks |-> <<>>]
      PutAs(kind, j, txt) == Scan(s, j, opts, Append(acc, [t |-> kind, s |-> txt]))
      Put(kind, j) == PutAs(kind, j, Slice(s, i, j))
  IN
  IF i > Len(s) THEN [e |-> "", toks |-> acc]
  ELSE IF c = "\n" THEN
    IF opts.nl = "semi" /\ needsemi THEN Scan(s, i + 1, opts, Append(acc, semi))
    ELSE Scan(s, i + 1, opts, acc)
  ELSE IF c \in BlankChar THEN Scan(s, i + 1, opts, acc)
  ELSE IF c \in LetterChar \/ WholeAt(s, i) \in OtherLetter THEN
    LET j == NameEnd(s, i) IN
    IF Unknown(s, j) THEN Fail("unk")
    ELSE Put(IF Slice(s, i, j) \in GoKeywords THEN "kw" ELSE "id", j)
  ELSE IF c \in DigitChar \/ (c = "." /\ At(s, i + 1) \in DigitChar) THEN
    LET r == ScanNumber(s, i) IN IF r.e # "" THEN Fail(r.e) ELSE Put("lit", r.j)
  ELSE IF c = "\"" THEN
    LET r == ScanString(s, i + 1, "\"", 0) IN IF r.e # "" THEN Fail(r.e) ELSE Put("lit", r.j)
  ELSE IF c = "'" THEN
    LET r == ScanString(s, i + 1, "'", 0) IN IF r.e # "" THEN Fail(r.e) ELSE IF r.n # 1 THEN Fail("rej") ELSE Put("lit", r.j)
  ELSE IF c = "`" THEN
    LET j == Find(s, i + 1, "`") IN
    IF j > Len(s) THEN Fail("rej") ELSE PutAs("lit", j + 1, Without(Slice(s, i, j + 1), "\r"))
  ELSE IF HasAt(s, i, "//") THEN
    LET j == IF opts.cmt = "rest" THEN Len(s) + 1 ELSE Find(s, i, "\n") IN
    IF opts.nl = "semi" /\ needsemi THEN Scan(s, j, opts, Append(acc, semi)) ELSE Scan(s, j, opts, acc)
  ELSE IF HasAt(s, i, "/*") THEN
    LET RECURSIVE Close(_)
        Close(k) == IF k > Len(s) THEN 0 ELSE IF HasAt(s, k, "*/") THEN k + 2 ELSE Close(k + 1)
        j == Close(i + 2)
    IN IF j = 0 THEN Fail("rej")
       ELSE IF opts.nl = "semi" /\ needsemi /\ Occurs(Slice(s, i, j), 1, "\n")
       THEN Scan(s, j, opts, Append(acc, semi)) ELSE Scan(s, j, opts, acc)
  ELSE IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) \in Ops3 THEN Put("op", i + 3)
  ELSE IF i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in Ops2 THEN Put("op", i + 2)
  ELSE IF c \in Ops1 THEN Put("op", i + 1)
  ELSE IF Unknown(s, i) THEN Fail("unk")
  ELSE Fail("rej")

-----------------------------------------------------------------------------
(* Parser.  P(toks, i, ...) gives [ok, i, v].                               *)

Prec(op) == CASE op = "||" -> 1
              [] op = "&&" -> 2
              [] op \in {"==", "!=", "<", "<=", ">", ">="} -> 3
              [] op \in {"+", "-", "|", "^"} -> 4
              [] op \in {"*", "/", "%", "<<", ">>", "&", "&^"} -> 5
              [] OTHER -> 0
BinaryOps == {"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "^",
              "*", "/", "%", "<<", ">>", "&", "&^"}
UnaryOps == {"+", "-", "!", "^", "&", "~", "<-"}

NoTok  == [t |-> "eof", s |-> ""]
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE NoTok
IsOp(ts, i, s) == Tok(ts, i).t = "op" /\ Tok(ts, i).s = s
GFail == [ok |-> FALSE, i |-> 0, v |-> [k |-> "none"]]
GOk(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

RECURSIVE GBinary(_, _, _), GBinaryLoop(_, _, _, _), GUnary(_, _), GPrimary(_, _, _), GArgs(_, _, _)

GOperand(ts, i) ==
  LET t == Tok(ts, i) IN
  IF t.t = "id" THEN GOk(i + 1, [k |-> "id", n |-> t.s])
  ELSE IF t.t = "lit" THEN GOk(i + 1, [k |-> "lit", v |-> t.s])
  ELSE IF IsOp(ts, i, "(") THEN
    LET r == GBinary(ts, i + 1, 1) IN
    IF r.ok /\ IsOp(ts, r.i, ")") THEN GOk(r.i + 1, [k |-> "par", x |-> r.v]) ELSE GFail
  ELSE GFail

\* Argument list after "(": [ok, i, v |-> [a, v]].
GArgs(ts, i, acc) ==
  IF IsOp(ts, i, ")") THEN GOk(i + 1, [a |-> acc, v |-> FALSE])
  ELSE
    LET r == GBinary(ts, i, 1) IN
    IF ~r.ok THEN GFail
    ELSE LET as == Append(acc, r.v) IN
      IF IsOp(ts, r.i, "...") THEN
        IF IsOp(ts, r.i + 1, ")") THEN GOk(r.i + 2, [a |-> as, v |-> TRUE])
        ELSE IF IsOp(ts, r.i + 1, ",") /\ IsOp(ts, r.i + 2, ")") THEN GOk(r.i + 3, [a |-> as, v |-> TRUE])
        ELSE GFail
      ELSE IF IsOp(ts, r.i, ",") THEN GArgs(ts, r.i + 1, as)
      ELSE IF IsOp(ts, r.i, ")") THEN GOk(r.i + 1, [a |-> as, v |-> FALSE])
      ELSE GFail

GPrimary(ts, i, x) ==
  IF IsOp(ts, i, ".") THEN
    IF Tok(ts, i + 1).t = "id" THEN GPrimary(ts, i + 2, [k |-> "sel", x |-> x, n |-> ts[i + 1].s])
    ELSE GFail
  ELSE IF IsOp(ts, i, "(") THEN
    LET r == GArgs(ts, i + 1, <<>>) IN
    IF r.ok THEN GPrimary(ts, r.i, [k |-> "call", f |-> x, a |-> r.v.a, v |-> r.v.v]) ELSE GFail
  ELSE IF IsOp(ts, i, "[") \/ IsOp(ts, i, "{") THEN GFail
  ELSE GOk(i, x)

GUnary(ts, i) ==
  LET t == Tok(ts, i) IN
  IF t.t = "op" /\ t.s \in UnaryOps THEN
    LET r == GUnary(ts, i + 1) IN
    IF r.ok THEN GOk(r.i, [k |-> "un", op |-> t.s, x |-> r.v]) ELSE GFail
  ELSE IF IsOp(ts, i, "*") THEN
    LET r == GUnary(ts, i + 1) IN
    IF r.ok THEN GOk(r.i, [k |-> "star", x |-> r.v]) ELSE GFail
  ELSE
    LET r == GOperand(ts, i) IN
    IF r.ok THEN GPrimary(ts, r.i, r.v) ELSE GFail

GBinaryLoop(ts, i, prec, x) ==
  LET t == Tok(ts, i) IN
  IF t.t = "op" /\ t.s \in BinaryOps /\ Prec(t.s) >= prec THEN
    LET r == GBinary(ts, i + 1, Prec(t.s) + 1) IN
    IF r.ok THEN GBinaryLoop(ts, r.i, prec, [k |-> "bin", op |-> t.s, x |-> x, y |-> r.v]) ELSE GFail
  ELSE GOk(i, x)

GBinary(ts, i, prec) ==
  LET r == GUnary(ts, i) IN
  IF r.ok THEN GBinaryLoop(ts, r.i, prec, r.v) ELSE GFail

\* [e |-> "" | "rej" | "unk", v |-> tree]
ReadGo(s, opts) ==
  LET sc == Scan(s, 1, opts, <<>>) IN
  IF Occurs(s, 1, NulChar) \/ Occurs(s, 2, BomChar) THEN [e |-> "rej", v |-> GFail.v]
  ELSE IF Occurs(s, 1, BomChar) THEN [e |-> "unk", v |-> GFail.v]
  ELSE IF sc.e # "" THEN [e |-> sc.e, v |-> GFail.v]
  ELSE
    LET r == GBinary(sc.toks, 1, 1)
        j == IF r.ok /\ Tok(sc.toks, r.i).t = "semi" THEN r.i + 1 ELSE r.i
    IN IF r.ok /\ j = Len(sc.toks) + 1 THEN [e |-> "", v |-> r.v]
       ELSE [e |-> "rej", v |-> GFail.v]

PlainGo == [nl |-> "semi", cmt |-> "line"]

-----------------------------------------------------------------------------
(* Printer.  Operators binding at least as tightly as + are printed without *)
(* blanks, unless that would make two tokens scan as something else.        *)

RECURSIVE Merges(_, _)
Merges(op, e) ==
  IF e.k = "bin" THEN Merges(op, e.x)
  ELSE IF e.k = "star" THEN op = "/"
  ELSE IF e.k = "un" THEN \/ op \in {"+", "-"} /\ e.op = op
                          \/ op = "&" /\ e.op \in {"&", "^"}
  ELSE FALSE

RECURSIVE EndsInLiteral(_)
EndsInLiteral(e) ==
  IF e.k = "lit" THEN TRUE
  ELSE IF e.k \in {"un", "star"} THEN EndsInLiteral(e.x)
  ELSE IF e.k = "bin" THEN EndsInLiteral(e.y)
  ELSE FALSE

RECURSIVE WriteGo(_)
WriteGo(e) ==
  CASE e.k = "id" -> e.n
    [] e.k = "lit" -> e.v
    [] e.k = "par" -> "(" \o WriteGo(e.x) \o ")"
    [] e.k = "un" -> e.op \o (IF Merges(e.op, e.x) THEN " " ELSE "") \o WriteGo(e.x)
    [] e.k = "star" -> "*" \o WriteGo(e.x)
    [] e.k = "bin" -> LET sp == IF Prec(e.op) < 4 \/ Merges(e.op, e.y) THEN " " ELSE "" IN
                      WriteGo(e.x) \o sp \o e.op \o sp \o WriteGo(e.y)
    [] e.k = "sel" -> WriteGo(e.x) \o (IF EndsInLiteral(e.x) THEN " ." ELSE ".") \o e.n
    [] e.k = "call" -> WriteGo(e.f) \o "(" \o Join([i \in 1..Len(e.a) |-> WriteGo(e.a[i])], ", ")
                       \o (IF e.v THEN (IF EndsInLiteral(e.a[Len(e.a)]) THEN " ..." ELSE "...") ELSE "")
                       \o ")"
    [] e.k \in {"nil", "unprintable"} -> Hole

\* Shape of trees that some text denotes (parentheses are explicit nodes).
IsPrimary(e) == e.k \in {"id", "lit", "par", "sel", "call"}
IsUnaryLevel(e) == IsPrimary(e) \/ e.k \in {"un", "star"}
RECURSIVE WellShaped(_)
WellShaped(e) ==
  CASE e.k \in {"id", "lit"} -> TRUE
    [] e.k = "par" -> WellShaped(e.x)
    [] e.k \in {"un", "star"} -> IsUnaryLevel(e.x) /\ WellShaped(e.x)
    [] e.k = "bin" -> /\ WellShaped(e.x) /\ WellShaped(e.y)
                      /\ e.x.k = "bin" => Prec(e.x.op) >= Prec(e.op)
                      /\ e.y.k = "bin" => Prec(e.y.op) > Prec(e.op)
    [] e.k = "sel" -> IsPrimary(e.x) /\ WellShaped(e.x)
    [] e.k = "call" -> /\ IsPrimary(e.f) /\ WellShaped(e.f)
                       /\ \A i \in 1..Len(e.a) : WellShaped(e.a[i])
                       /\ e.v => e.a # <<>>
=============================================================================

------------------------------ MODULE RuleLang ------------------------------
(***************************************************************************)
(* The rule language: which texts are rule files, which rules they denote, *)
(* and the one canonical text of every rule.                               *)
(*                                                                         *)
(* Rules:   [m |-> value, c |-> <<>> or <<expr>>, b |-> block, r |-> value]*)
(* Values:  [k |-> "v", n]   variable or placeholder                       *)
(*          [k |-> "e", e]   call expression                               *)
(*          [k |-> "s", bind, op, t, ai, ax, a, el, tr]   S-expression     *)
(* Opcodes: [k |-> "o", n]  or  [k |-> "p", ps], parts being opcodes or    *)
(*          [k |-> "a", alts]                                              *)
(*                                                                         *)
(* ParseFile(s, mode) is [e |-> "" | "rej" | "unk", rs].  Mode "intended"  *)
(* reads conditions as the language defines them; mode "actual" reads them *)
(* as the implementation is known to (finding KF1: line breaks of a        *)
(* condition are turned into blanks before its comments and literals are   *)
(* recognised).  The two differ in nothing else.                           *)
(***************************************************************************)
EXTENDS GoExpr

-----------------------------------------------------------------------------
(* Layout. *)

RECURSIVE SkipEnd(_, _)
SkipEnd(s, i) ==
  IF At(s, i) \in LayoutChar THEN SkipEnd(s, i + 1)
  ELSE IF HasAt(s, i, "//") THEN SkipEnd(s, Find(s, i, "\n"))
  ELSE i

IsSkip(s, i) == At(s, i) \in LayoutChar \/ HasAt(s, i, "//")

-----------------------------------------------------------------------------
(* Parsers: [ok, i, v]; a value that is syntactically present but not       *)
(* admissible is [k |-> "bad", e].                                          *)

None == [k |-> "none"]
PFail == [ok |-> FALSE, i |-> 0, v |-> None]
POk(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Bad(e) == [k |-> "bad", e |-> e]

IdentAt(s, i) ==
  IF At(s, i) \in LowerCase
  THEN LET j == SpanEnd(s, i, WordChar) IN POk(j, Slice(s, i, j))
  ELSE PFail

WordAt(s, i) ==
  LET j == SpanEnd(s, i, WordChar) IN IF j > i THEN POk(j, Slice(s, i, j)) ELSE PFail

\* Names and calls.  A call's tree is read off directly.
RECURSIVE ExprAt(_, _), CallArgs(_, _, _)
GoName(n) == IF n \in GoKeywords THEN Bad("rej") ELSE [k |-> "id", n |-> n]
AsGo(v) == CASE v.k = "v" -> GoName(v.n)
             [] v.k = "e" -> v.e
             [] OTHER -> v

\* s[i] is just after the first argument's start position; acc holds trees.
CallArgs(s, i, acc) ==
  LET a == ExprAt(s, i) IN
  IF ~a.ok THEN PFail
  ELSE LET acc2 == Append(acc, AsGo(a.v))
           j    == SkipEnd(s, a.i)
       IN IF At(s, j) = "," THEN CallArgs(s, SkipEnd(s, j + 1), acc2)
          ELSE IF At(s, j) = ")" THEN POk(j + 1, acc2)
          ELSE PFail

ExprAt(s, i) ==
  LET id == IdentAt(s, i) IN
  IF id.ok THEN
    LET as == IF At(s, id.i) = "(" THEN CallArgs(s, SkipEnd(s, id.i + 1), <<>>) ELSE PFail IN
    IF as.ok
    THEN POk(as.i, [k |-> "e", e |-> [k |-> "call", f |-> GoName(id.v), a |-> as.v, v |-> FALSE]])
    ELSE POk(id.i, [k |-> "v", n |-> id.v])
  ELSE IF At(s, i) = "_" /\ At(s, i + 1) # "_" THEN POk(i + 1, [k |-> "v", n |-> "_"])
  ELSE PFail

\* Opcodes.
RECURSIVE AltRest(_, _, _)
AltRest(s, i, acc) ==
  IF At(s, i) = "|" THEN
    LET w == WordAt(s, i + 1) IN IF w.ok THEN AltRest(s, w.i, Append(acc, w.v)) ELSE PFail
  ELSE IF At(s, i) = ")" /\ Len(acc) >= 2 THEN POk(i + 1, [k |-> "a", alts |-> acc])
  ELSE PFail

OpPartAt(s, i) ==
  LET w == WordAt(s, i) IN
  IF w.ok THEN POk(w.i, [k |-> "o", n |-> w.v])
  ELSE IF At(s, i) = "(" THEN
    LET f == WordAt(s, i + 1) IN IF f.ok THEN AltRest(s, f.i, <<f.v>>) ELSE PFail
  ELSE PFail

RECURSIVE OpParts(_, _, _)
OpParts(s, i, acc) ==
  LET p == OpPartAt(s, i) IN
  IF p.ok THEN OpParts(s, p.i, Append(acc, p.v))
  ELSE IF acc = <<>> THEN PFail
  ELSE IF Len(acc) = 1 /\ acc[1].k = "o" THEN POk(i, acc[1])
  ELSE POk(i, [k |-> "p", ps |-> acc])

\* Bracketed operand: nonempty text up to the first closing character.
Bracketed(s, i, close) ==
  LET j == Find(s, i + 1, close) IN
  IF j > Len(s) \/ j = i + 1 THEN PFail ELSE POk(j + 1, Slice(s, i + 1, j))

GoText(x) == LET r == ReadGo(x, PlainGo) IN IF r.e = "" THEN r.v ELSE Bad(r.e)

NewS == [k |-> "s", bind |-> "", op |-> None, t |-> "", ai |-> <<>>, ax |-> <<>>,
         a |-> <<>>, el |-> FALSE, tr |-> FALSE]

RECURSIVE ValueAt(_, _), Operands(_, _, _)

\* One operand at i put into n: [ok, i, v].
OperandAt(s, i, n) ==
  LET c == At(s, i) IN
  IF c = "<" THEN
    LET b == Bracketed(s, i, ">") IN
    IF ~b.ok THEN PFail
    ELSE POk(b.i, IF n.t # "" THEN [n EXCEPT !.a = Append(@, Bad("rej"))] ELSE [n EXCEPT !.t = b.v])
  ELSE IF c = "[" THEN
    LET b == Bracketed(s, i, "]") IN
    IF ~b.ok THEN PFail
    ELSE POk(b.i, IF n.ai # <<>> THEN [n EXCEPT !.a = Append(@, Bad("rej"))]
                  ELSE [n EXCEPT !.ai = <<GoText(b.v)>>])
  ELSE IF c = "{" THEN
    LET b == Bracketed(s, i, "}") IN
    IF ~b.ok THEN PFail
    ELSE POk(b.i, IF n.ax # <<>> THEN [n EXCEPT !.a = Append(@, Bad("rej"))]
                  ELSE [n EXCEPT !.ax = <<GoText(b.v)>>])
  ELSE
    LET v == ValueAt(s, i) IN
    IF v.ok THEN POk(v.i, [n EXCEPT !.a = Append(@, v.v)]) ELSE PFail

\* i is just after an element of the S-expression n.
Operands(s, i, n) ==
  LET j == SkipEnd(s, i)
      o == IF j > i THEN OperandAt(s, j, n) ELSE PFail
  IN IF o.ok THEN Operands(s, o.i, o.v) ELSE POk(i, n)

\* A marker separated from what precedes it.
MarkAt(s, i, m) == LET j == SkipEnd(s, i) IN IF j > i /\ HasAt(s, j, m) THEN j + Len(m) ELSE 0

SExprAt(s, i) ==
  LET id   == IdentAt(s, i)
      bind == id.ok /\ At(s, id.i) = ":"
      i0   == IF bind THEN id.i + 1 ELSE i
  IN IF At(s, i0) # "(" THEN PFail
     ELSE
       LET op == OpParts(s, SkipEnd(s, i0 + 1), <<>>) IN
       IF ~op.ok THEN PFail
       ELSE
         LET n0 == [NewS EXCEPT !.bind = IF bind THEN id.v ELSE "", !.op = op.v]
             r  == Operands(s, op.i, n0)
             e  == MarkAt(s, r.i, "...")
             i1 == IF e > 0 THEN e ELSE r.i
             t  == MarkAt(s, i1, "___")
             i2 == IF t > 0 THEN t ELSE i1
             i3 == SkipEnd(s, i2)
         IN IF At(s, i3) = ")" THEN POk(i3 + 1, [r.v EXCEPT !.el = e > 0, !.tr = t > 0])
            ELSE PFail

ValueAt(s, i) == LET r == SExprAt(s, i) IN IF r.ok THEN r ELSE ExprAt(s, i)

\* Position of the "=>" ending a condition that starts at i (0 when none).
\* "intended": comments and literals are opaque.
RECURSIVE ArrowAt(_, _), LitEnd(_, _, _)
LitEnd(s, i, q) ==
  IF i > Len(s) THEN i
  ELSE IF At(s, i) = q THEN i + 1
  ELSE IF At(s, i) = "\\" /\ q # "`" THEN LitEnd(s, i + 2, q)
  ELSE LitEnd(s, i + 1, q)
ArrowAt(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF HasAt(s, i, "//") THEN ArrowAt(s, Find(s, i, "\n"))
  ELSE IF At(s, i) \in {"\"", "'", "`"} THEN ArrowAt(s, LitEnd(s, i + 1, At(s, i)))
  ELSE IF HasAt(s, i, "=>") THEN i
  ELSE ArrowAt(s, i + 1)
RECURSIVE FirstArrow(_, _)
FirstArrow(s, i) == IF i > Len(s) THEN 0 ELSE IF HasAt(s, i, "=>") THEN i ELSE FirstArrow(s, i + 1)

RECURSIVE Blanked(_, _, _)
Blanked(s, i, from) ==
  IF i > Len(s) THEN Slice(s, from, i)
  ELSE IF At(s, i) = "\n" THEN Slice(s, from, i) \o " " \o Blanked(s, i + 1, i + 1)
  ELSE Blanked(s, i + 1, from)

CondAt(s, i, mode) ==
  LET p == IF mode = "actual" THEN FirstArrow(s, i) ELSE ArrowAt(s, i) IN
  IF p <= i THEN PFail
  ELSE IF At(s, p - 1) \notin LayoutChar THEN PFail
  ELSE LET r == IF mode = "actual" THEN ReadGo(Blanked(Slice(s, i, p - 1), 1, 1), PlainGo)
                ELSE ReadGo(Slice(s, i, p - 1), [nl |-> "space", cmt |-> "line"])
       IN POk(p, IF r.e = "" THEN r.v ELSE Bad(r.e))

RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) == IF i > Len(s) \/ IsSkip(s, i) THEN i ELSE BlockEnd(s, i + 1)

RuleAt(s, i, mode) ==
  LET m == ValueAt(s, i) IN
  IF ~m.ok THEN PFail
  ELSE
    LET j   == SkipEnd(s, m.i)
        has == j > m.i /\ HasAt(s, j, "&&") /\ SkipEnd(s, j + 2) > j + 2
        c   == IF has THEN CondAt(s, SkipEnd(s, j + 2), mode) ELSE PFail
        k   == IF c.ok THEN c.i ELSE j
    IN IF (has /\ ~c.ok) \/ ~HasAt(s, k, "=>") THEN PFail
       ELSE
         LET b0 == SkipEnd(s, k + 2)
             be == IF At(s, b0) = "@" THEN BlockEnd(s, b0 + 1) ELSE b0
             hb == At(s, b0) = "@" /\ be > b0 + 1
             r  == ValueAt(s, IF hb THEN SkipEnd(s, be) ELSE b0)
         IN IF ~r.ok THEN PFail
            ELSE POk(r.i, [m |-> m.v, c |-> IF c.ok THEN <<c.v>> ELSE <<>>,
                           b |-> IF hb THEN Slice(s, b0 + 1, be) ELSE "", r |-> r.v])

\* Worst inadmissibility in a tree: "", "unk" or "rej".
Worse(a, b) == IF a = "rej" \/ b = "rej" THEN "rej" ELSE IF a = "unk" \/ b = "unk" THEN "unk" ELSE ""
RECURSIVE BadGo(_), BadGoSeq(_), BadValue(_), BadSeq(_)
BadGoSeq(es) == IF es = <<>> THEN "" ELSE Worse(BadGo(Head(es)), BadGoSeq(Tail(es)))
BadGo(e) == CASE e.k = "bad" -> e.e
              [] e.k = "call" -> Worse(BadGo(e.f), BadGoSeq(e.a))
              [] OTHER -> ""
BadSeq(vs) == IF vs = <<>> THEN "" ELSE Worse(BadValue(Head(vs)), BadSeq(Tail(vs)))
BadValue(v) == CASE v.k = "bad" -> v.e
                 [] v.k = "e" -> BadGo(v.e)
                 [] v.k = "s" -> Worse(BadGoSeq(v.ai), Worse(BadGoSeq(v.ax), BadSeq(v.a)))
                 [] OTHER -> ""
BadRule(r) == Worse(BadGoSeq(r.c), Worse(BadValue(r.m), BadValue(r.r)))

RECURSIVE RulesAt(_, _, _, _, _)
RulesAt(s, i, mode, acc, e) ==
  IF i > Len(s) THEN IF e = "" THEN [e |-> "", rs |-> acc] ELSE [e |-> e, rs |-> <<>>]
  ELSE LET r == RuleAt(s, i, mode) IN
       IF ~r.ok THEN [e |-> "rej", rs |-> <<>>]
       ELSE RulesAt(s, SkipEnd(s, r.i), mode, Append(acc, r.v), Worse(e, BadRule(r.v)))

ParseFile(s, mode) == RulesAt(s, SkipEnd(s, 1), mode, <<>>, "")

-----------------------------------------------------------------------------
(* Canonical text. *)

PartText(p) == IF p.k = "nil" THEN Hole ELSE IF p.k = "o" THEN p.n ELSE "(" \o Join(p.alts, "|") \o ")"
OpText(op) == IF op.k = "nil" THEN Hole ELSE IF op.k = "o" THEN op.n ELSE Concat([i \in 1..Len(op.ps) |-> PartText(op.ps[i])])

RECURSIVE ValueText(_)
ValueText(v) ==
  CASE v.k = "v" -> v.n
    [] v.k = "e" -> WriteGo(v.e)
    [] v.k = "nil" -> Hole
    [] v.k = "s" ->
       (IF v.bind # "" THEN v.bind \o ":" ELSE "") \o "(" \o OpText(v.op)
       \o (IF v.t # "" THEN " <" \o v.t \o ">" ELSE "")
       \o (IF v.ai # <<>> THEN " [" \o WriteGo(v.ai[1]) \o "]" ELSE "")
       \o (IF v.ax # <<>> THEN " {" \o WriteGo(v.ax[1]) \o "}" ELSE "")
       \o Concat([i \in 1..Len(v.a) |-> " " \o ValueText(v.a[i])])
       \o (IF v.el THEN " ..." ELSE "") \o (IF v.tr THEN " ___" ELSE "") \o ")"

RuleText(r) == ValueText(r.m) \o (IF r.c # <<>> THEN " && " \o WriteGo(r.c[1]) ELSE "") \o " => "
               \o (IF r.b # "" THEN "@" \o r.b \o " " ELSE "") \o ValueText(r.r)

FileText(rs) == Concat([i \in 1..Len(rs) |-> RuleText(rs[i]) \o "\n"])

-----------------------------------------------------------------------------
(* The same text as items and the gaps between them: where white space is    *)
(* required ("r"), allowed ("o") or not allowed ("").  A rule is a sequence  *)
(* of [s, g]: item text and the gap that follows it.                         *)

It(s, g) == [s |-> s, g |-> g]
SetGap(is, g) == [is EXCEPT ![Len(is)].g = g]

RECURSIVE GoItems(_)      \* calls only
GoItems(e) ==
  CASE e.k = "id" -> <<It(e.n, "")>>
    [] e.k = "call" -> <<It(e.f.n, ""), It("(", "o")>>
         \o Flat([i \in 1..Len(e.a) |-> SetGap(GoItems(e.a[i]), "o")
                    \o (IF i < Len(e.a) THEN <<It(",", "o")>> ELSE <<>>)])
         \o <<It(")", "")>>

RECURSIVE ValueItems(_)
ValueItems(v) ==
  CASE v.k = "v" -> <<It(v.n, "")>>
    [] v.k = "e" -> GoItems(v.e)
    [] v.k = "s" ->
       LET parts ==
             <<(IF v.bind # "" THEN <<It(v.bind, ""), It(":", "")>> ELSE <<>>)
               \o <<It("(", "o"), It(OpText(v.op), "")>>>>
             \o (IF v.t # "" THEN << <<It("<" \o v.t \o ">", "")>> >> ELSE <<>>)
             \o (IF v.ai # <<>> THEN << <<It("[" \o WriteGo(v.ai[1]) \o "]", "")>> >> ELSE <<>>)
             \o (IF v.ax # <<>> THEN << <<It("{" \o WriteGo(v.ax[1]) \o "}", "")>> >> ELSE <<>>)
             \o [i \in 1..Len(v.a) |-> ValueItems(v.a[i])]
             \o (IF v.el THEN << <<It("...", "")>> >> ELSE <<>>)
             \o (IF v.tr THEN << <<It("___", "")>> >> ELSE <<>>)
       IN Flat([i \in 1..Len(parts) |-> SetGap(parts[i], IF i = Len(parts) THEN "o" ELSE "r")])
          \o <<It(")", "")>>

\* A binary operator of a condition may have layout on both sides.
RECURSIVE CondItems(_)
CondItems(e) ==
  CASE e.k = "bin" -> SetGap(CondItems(e.x), "n") \o <<It(e.op, "n")>> \o CondItems(e.y)
    [] OTHER -> <<It(WriteGo(e), "")>>

RuleItems(r) ==
  SetGap(ValueItems(r.m), IF r.c # <<>> THEN "r" ELSE "o")
  \o (IF r.c # <<>> THEN <<It("&&", "r")>> \o SetGap(CondItems(r.c[1]), "r") ELSE <<>>)
  \o <<It("=>", "o")>>
  \o (IF r.b # "" THEN <<It("@" \o r.b, "r")>> ELSE <<>>)
  \o ValueItems(r.r)
=============================================================================

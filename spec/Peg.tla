---------------------------------- MODULE Peg ----------------------------------
(***************************************************************************)
(* Where reading fails.  The grammar of rule files as a parsing expression   *)
(* grammar, and the machine that reads by it: ordered choice, no way back    *)
(* into a choice once made.  Besides success and the position reached it     *)
(* tells the farthest position at which something was wanted and not found,  *)
(* and the places of elements that were read but are not admissible.         *)
(*                                                                         *)
(* Eval(s, e, i, inv) reads expression e at i; inv: within a lookahead.      *)
(* [ok, i, lo, hi, er]: hi the farthest failure, counting those within       *)
(* lookaheads (where finding is failing); lo without those; er the starts of *)
(* inadmissible elements in the order in which they were completed, abandoned *)
(* readings included.                                                       *)
(***************************************************************************)
EXTENDS RuleLang, FiniteSets

Ref(nm)  == [k |-> "ref", n |-> nm]
Lit(t)   == [k |-> "lit", s |-> t]
Set(cs)  == [k |-> "set", cs |-> cs]
But(cs)  == [k |-> "but", cs |-> cs]
Dot      == [k |-> "any"]
Star(e)  == [k |-> "star", e |-> e]
Plus(e)  == [k |-> "plus", e |-> e]
Opt(e)   == [k |-> "opt", e |-> e]
Not(e)   == [k |-> "not", e |-> e]
Cat(es)  == [k |-> "cat", es |-> es]
Alt(es)  == [k |-> "alt", es |-> es]
Act(nm, e) == [k |-> "act", n |-> nm, e |-> e]

Gap0 == Star(Ref("Skip"))
Gap1 == Plus(Ref("Skip"))

Grammar == TLCEval([
  File   |-> Cat(<<Gap0, Star(Cat(<<Ref("Rule"), Gap0>>)), Not(Dot)>>),
  Rule   |-> Cat(<<Ref("Value"), Opt(Cat(<<Gap1, Lit("&&"), Gap1, Ref("Cond")>>)), Gap0, Lit("=>"), Gap0,
                   Opt(Ref("Block")), Gap0, Ref("Value")>>),
  Value  |-> Alt(<<Ref("SExpr"), Ref("Expr")>>),
  SExpr  |-> Act("sexpr", Cat(<<Opt(Cat(<<Ref("Ident"), Lit(":")>>)), Lit("("), Gap0, Plus(Alt(<<Ref("Word"), Ref("Group")>>)),
                   Star(Cat(<<Gap1, Ref("Operand")>>)), Opt(Cat(<<Gap1, Lit("...")>>)), Opt(Cat(<<Gap1, Lit("___")>>)), Gap0, Lit(")")>>)),
  Word   |-> Plus(Set(WordChar)),
  Group  |-> Cat(<<Lit("("), Ref("Word"), Plus(Cat(<<Lit("|"), Ref("Word")>>)), Lit(")")>>),
  Operand |-> Alt(<<Cat(<<Lit("<"), Plus(But({">"})), Lit(">")>>),
                    Act("go", Cat(<<Lit("["), Plus(But({"]"})), Lit("]")>>)),
                    Act("go", Cat(<<Lit("{"), Plus(But({"}"})), Lit("}")>>)), Ref("Value")>>),
  Expr   |-> Alt(<<Ref("Call"), Ref("Ident"), Cat(<<Lit("_"), Not(Lit("_"))>>)>>),
  Call   |-> Act("call", Cat(<<Ref("Ident"), Lit("("), Gap0, Ref("Expr"), Star(Cat(<<Gap0, Lit(","), Gap0, Ref("Expr"), Gap0>>)), Gap0, Lit(")")>>)),
  Ident  |-> Cat(<<Set(LowerCase), Star(Set(WordChar))>>),
  Cond   |-> Act("cond", Plus(Cat(<<Dot, Not(Lit("=>"))>>))),
  Block  |-> Cat(<<Lit("@"), Plus(Cat(<<Not(Ref("Skip")), Dot>>))>>),
  Skip   |-> Alt(<<Cat(<<Lit("//"), Star(But({"\n"}))>>), Set(BlankChar), Set({"\n"})>>)])

\* Is the element n of s[i..j-1] inadmissible?  "", "unk" or "rej".
Wrong(s, n, i, j) ==
  CASE n = "go"    -> ReadGo(Slice(s, i + 1, j - 1), PlainGo).e
    [] n = "cond"  -> ReadGo(Blanked(Slice(s, i, j), 1, 1), PlainGo).e
    [] n = "call"  -> LET r == ExprAt(s, i) IN IF r.ok THEN BadValue(r.v) ELSE "unk"
    [] n = "sexpr" -> LET r == SExprAt(s, i) IN
                      IF ~r.ok THEN "unk" ELSE IF \E x \in 1..Len(r.v.a) : r.v.a[x].k = "bad" THEN "rej" ELSE ""

Max(a, b) == IF a > b THEN a ELSE b
No(i) == [ok |-> FALSE, i |-> i, lo |-> 0, hi |-> 0, er |-> <<>>]
\* A terminal at i, found (and then j is what follows it) or not.
Term(ok, i, j, inv) ==
  [ok |-> ok, i |-> IF ok THEN j ELSE i, lo |-> IF ok \/ inv THEN 0 ELSE i, hi |-> IF ok = inv THEN i ELSE 0, er |-> <<>>]
\* What happened in a came before b.
Then(a, b) == [b EXCEPT !.lo = Max(a.lo, @), !.hi = Max(a.hi, @), !.er = IF a.er = <<>> THEN @ ELSE a.er \o @]

RECURSIVE Eval(_, _, _, _), EvalCat(_, _, _, _, _), EvalAlt(_, _, _, _, _), EvalStar(_, _, _, _)
EvalCat(s, es, n, a, inv) ==     \* a: what happened before the nth
  IF n > Len(es) THEN a
  ELSE LET b == Then(a, Eval(s, es[n], a.i, inv)) IN IF b.ok THEN EvalCat(s, es, n + 1, b, inv) ELSE b
EvalAlt(s, es, n, a, inv) ==
  LET b == Then(a, Eval(s, es[n], a.i, inv)) IN
  IF b.ok \/ n = Len(es) THEN b ELSE EvalAlt(s, es, n + 1, [b EXCEPT !.i = a.i], inv)
EvalStar(s, e, a, inv) ==
  LET b == Then(a, Eval(s, e, a.i, inv)) IN
  IF b.ok THEN EvalStar(s, e, b, inv) ELSE [b EXCEPT !.ok = TRUE, !.i = a.i]
Yes(i) == [No(i) EXCEPT !.ok = TRUE]
Eval(s, e, i, inv) ==
  CASE e.k = "ref" -> Eval(s, Grammar[e.n], i, inv)
    [] e.k = "lit" -> Term(HasAt(s, i, e.s), i, i + Len(e.s), inv)
    [] e.k = "set" -> Term(At(s, i) \in e.cs, i, i + 1, inv)
    [] e.k = "but" -> Term(i <= Len(s) /\ At(s, i) \notin e.cs, i, NextPos(s, i), inv)
    [] e.k = "any" -> Term(i <= Len(s), i, NextPos(s, i), inv)
    [] e.k = "cat" -> LET r == EvalCat(s, e.es, 1, Yes(i), inv) IN IF r.ok THEN r ELSE [r EXCEPT !.i = i]
    [] e.k = "alt" -> EvalAlt(s, e.es, 1, No(i), inv)
    [] e.k = "star" -> EvalStar(s, e.e, Yes(i), inv)
    [] e.k = "plus" -> LET r == Eval(s, e.e, i, inv) IN IF r.ok THEN EvalStar(s, e.e, r, inv) ELSE r
    [] e.k = "opt" -> LET r == Eval(s, e.e, i, inv) IN IF r.ok THEN r ELSE [r EXCEPT !.ok = TRUE, !.i = i]
    [] e.k = "not" -> LET r == Eval(s, e.e, i, ~inv) IN
                      [r EXCEPT !.ok = ~r.ok, !.i = i, !.lo = IF r.ok /\ ~inv THEN i ELSE 0]
    [] e.k = "act" -> LET r == Eval(s, e.e, i, inv) IN
                      IF r.ok /\ Wrong(s, e.n, i, r.i) # "" THEN [r EXCEPT !.er = Append(@, <<i, Wrong(s, e.n, i, r.i)>>)] ELSE r

\* Reading the text s as a rule file.
\* [e, at, far]: e as for ParseFile; the places of what is not admissible, or, when there
\* are none and the text cannot be read, the range of where reading failed.
Locate(s) ==
  LET r == Eval(s, Grammar.File, 1, FALSE) IN
  [e |-> IF \E x \in 1..Len(r.er) : r.er[x][2] = "unk" THEN "unk" ELSE IF r.ok /\ r.er = <<>> THEN "" ELSE "rej",
   at |-> [x \in 1..Len(r.er) |-> r.er[x][1]], lo |-> Max(1, r.lo), hi |-> Max(1, r.hi)]

-----------------------------------------------------------------------------
(* Positions.  A text comes with a list wide of <<n, w>>: the character ending  *)
(* at n takes w more bytes than it has positions in the text.               *)

RECURSIVE SumExtra(_, _)
SumExtra(wide, x) == IF wide = <<>> THEN 0 ELSE (IF Head(wide)[1] < x THEN Head(wide)[2] ELSE 0) + SumExtra(Tail(wide), x)
Offset(wide, x) == x - 1 + SumExtra(wide, x)

\* Line and column of the xth character, counting from one.  The end of a line is
\* also known as column 0 of the next.
LineOf(s, x) == 1 + Cardinality({j \in 1..(x - 1) : At(s, j) = "\n"})
LineStart(s, x) == LET nl == {j \in 1..(x - 1) : At(s, j) = "\n"} IN IF nl = {} THEN 1 ELSE 1 + CHOOSE j \in nl : \A m \in nl : m <= j
IsPosition(s, wide, p, x) ==
  /\ p.off = Offset(wide, x)
  /\ \/ p.line = LineOf(s, x) /\ p.col = x - LineStart(s, x) + 1 - Cardinality({j \in LineStart(s, x)..(x - 1) : At(s, j) \in HighHalf})
     \/ At(s, x) = "\n" /\ p.line = LineOf(s, x) + 1 /\ p.col = 0

\* Reading "line:col (off): " at i.
RECURSIVE NumVal(_, _, _)
NumVal(s, i, j) == IF i = j THEN 0 ELSE NumVal(s, i, j - 1) * 10 + (CHOOSE d \in 0..9 : At("0123456789", d + 1) = At(s, j - 1))
NumberAt(s, i) == LET j == SpanEnd(s, i, DigitChar) IN IF j > i /\ j < i + 9 THEN POk(j, NumVal(s, i, j)) ELSE PFail
PositionAt(s, i) ==
  LET l == NumberAt(s, i) IN
  IF ~l.ok \/ At(s, l.i) # ":" THEN PFail
  ELSE LET c == NumberAt(s, l.i + 1) IN
       IF ~c.ok \/ ~HasAt(s, c.i, " (") THEN PFail
       ELSE LET o == NumberAt(s, c.i + 2) IN
            IF ~o.ok \/ ~HasAt(s, o.i, "): ") THEN PFail
            ELSE POk(o.i + 3, [line |-> l.v, col |-> c.v, off |-> o.v])

Prefix(name) == IF name = "" THEN "" ELSE name \o ":"

\* Do the lines of a message tell where the text s is wrong?  "ok:..", "?" or a complaint.
\* bad: characters standing for bytes that are no characters.
LocationVerdict(s, wide, bad, name, lines) ==
  LET L   == Locate(s)
      pre == Prefix(name)
      \* per line: 0 for no position, -1 for one that is none of the text, else the character
      Place(p) == LET c == {y \in Max(1, p.off + 1 - 3 * Len(wide))..(p.off + 1) : y <= Len(s) + 1 /\ IsPosition(s, wide, p, y)}
                  IN IF c = {} THEN 0 - 1 ELSE CHOOSE y \in c : TRUE
      pl  == TLCEval([x \in 1..Len(lines) |->
               LET p == IF HasAt(lines[x], 1, pre) THEN PositionAt(lines[x], Len(pre) + 1) ELSE PFail
               IN IF p.ok THEN Place(p.v) ELSE 0])
      b   == IF bad = <<>> THEN Len(s) + 4 ELSE bad[1]
  IN IF L.e = "unk" THEN "?"
     ELSE IF lines = <<>> \/ pl[1] = 0 THEN "no source and position"
     ELSE IF \E x \in 1..Len(pl) : pl[x] < 0 THEN "line, column and offset do not agree"
     ELSE IF b < L.hi THEN
          IF L.at # <<>> /\ L.at[1] < b /\ pl[1] = L.at[1] THEN "ok:element"      \* reading may end there
          ELSE IF ~\E x \in 1..Len(pl) : pl[x] = b THEN "bytes that are no characters not located"
          ELSE IF pl[1] > b THEN "not the first" ELSE "ok:badutf8"
     ELSE IF b <= L.hi + 2 THEN "ok:badutf8"      \* perhaps seen
     ELSE IF L.e = "" THEN "?"
     ELSE IF L.at # <<>> THEN IF pl[1] # L.at[1] THEN "not the first inadmissible element" ELSE "ok:element"
     ELSE IF pl[1] < L.lo THEN "before where reading fails"
     ELSE IF pl[1] > L.hi THEN "after where reading fails"
     ELSE "ok:reject"
=============================================================================

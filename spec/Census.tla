-------------------------------- MODULE Census --------------------------------
(***************************************************************************)
(* Rule files of a size that cannot be written down.  A tree is taken apart  *)
(* into the sequence of its items, each a kind and a text; of a long such    *)
(* sequence the trace tells how many items of each kind there are, how long  *)
(* their texts are together, and which the first and the last few are.       *)
(*                                                                         *)
(* A text of n equal parts is judged by those of a few parts: every number   *)
(* grows by as much with every part, and the ends are the same.              *)
(***************************************************************************)
EXTENDS JudgeTree

D == INSTANCE Dump

I(k, s) == <<<<k, s>>>>
End == I("end", "")

RECURSIVE GoCensus(_)
GoCensus(e) ==
  CASE e.k = "id" -> I("id", e.n)
    [] e.k = "lit" -> I("lit", e.v)
    [] e.k = "par" -> I("par", "") \o GoCensus(e.x)
    [] e.k = "star" -> I("star", "") \o GoCensus(e.x)
    [] e.k = "un" -> I("un", e.op) \o GoCensus(e.x)
    [] e.k = "bin" -> I("bin", e.op) \o GoCensus(e.x) \o GoCensus(e.y)
    [] e.k = "sel" -> I("sel", e.n) \o GoCensus(e.x)
    [] e.k = "call" -> I("call", "") \o GoCensus(e.f) \o Flat([j \in 1..Len(e.a) |-> GoCensus(e.a[j])])
                       \o (IF e.v THEN I("dots", "") ELSE <<>>) \o End
ExprCensus(k, c) == IF c = <<>> THEN <<>> ELSE I(k, "") \o GoCensus(c[1])
PartCensus(p) == IF p.k = "o" THEN I("op", p.n) ELSE I("alt", "") \o [j \in 1..Len(p.alts) |-> <<"choice", p.alts[j]>>] \o End
OpCensus(op) == IF op.k = "o" THEN I("op", op.n) ELSE I("parts", "") \o Flat([j \in 1..Len(op.ps) |-> PartCensus(op.ps[j])]) \o End
RECURSIVE ValueCensus(_)
ValueCensus(v) ==
  CASE v.k = "v" -> I("var", v.n)
    [] v.k = "e" -> I("expr", "") \o GoCensus(v.e)
    [] v.k = "s" -> I("sexpr", v.bind) \o OpCensus(v.op) \o I("type", v.t) \o ExprCensus("ai", v.ai) \o ExprCensus("ax", v.ax)
                    \o Flat([j \in 1..Len(v.a) |-> ValueCensus(v.a[j])])
                    \o (IF v.el THEN I("el", "") ELSE <<>>) \o (IF v.tr THEN I("tr", "") ELSE <<>>) \o End
RuleCensus(r) == I("rule", r.b) \o ValueCensus(r.m) \o ExprCensus("cond", r.c) \o I("=>", "") \o ValueCensus(r.r)
Items(rs) == Flat([j \in 1..Len(rs) |-> RuleCensus(rs[j])])

\* What a visitor sees that goes no further at nodes of the kind stop.
Seen(n) == CASE n.nk \in {"var", "opcode"} -> <<n.nk, n.n>> [] OTHER -> <<n.nk, "">>
RECURSIVE Visits(_, _)
Visits(n, stop) == LET cs == IF n.nk = stop THEN <<>> ELSE Children(n) IN <<Seen(n)>> \o Flat([j \in 1..Len(cs) |-> Visits(cs[j], stop)])
\* What a search for such a node looks at.
Sought(ns, stop) == LET at == {j \in 1..Len(ns) : ns[j][1] = stop} IN
                    IF at = {} THEN ns ELSE SubSeq(ns, 1, CHOOSE j \in at : \A m \in at : j <= m)

-----------------------------------------------------------------------------
(* A text of parts numbered from k on. *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
SixDigits(n) == LET d == ToString(n) IN Zeros(6 - Len(d)) \o d
RECURSIVE RepOn(_, _, _)
RepOn(s, k, n) == IF n = 0 THEN "" ELSE NumberedFrom(s, 1, SixDigits(k)) \o RepOn(s, k + 1, n - 1)
BulkOn(p, k, n) == p[1] \o RepOn(p[2], k, n) \o p[3] \o RepOn(p[4], k, n) \o p[5]

Ends == 4       \* so many items at either end
Least(a, b) == IF a < b THEN a ELSE b
FirstOf(s) == SubSeq(s, 1, Least(Ends, Len(s)))
LastOf(s) == SubSeq(s, Len(s) + 1 - Least(Ends, Len(s)), Len(s))

RECURSIVE TextLen(_)
TextLen(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)[2]) + TextLen(Tail(s))
OfKind(s, k) == SelectSeq(s, LAMBDA x : x[1] = k)

\* Q(rs): the items of interest of the rules rs.  o is a census of the real ones for n parts.
\* "" or a complaint.
CensusVerdict(p, n, o, Q(_)) ==
  LET Of(k, m) == Q(ParseFile(BulkOn(p, k, m), "intended").rs)
      On(a, b) == a + (n - 3) * (b - a)
      q3 == TLCEval(Of(0, 3))
      q4 == TLCEval(Of(0, 4))
      z3 == TLCEval(Of(n - 3, 3))
      z4 == TLCEval(Of(n - 4, 4))
      Kinds == {q4[j][1] : j \in 1..Len(q4)}
      KindAt(k) == CHOOSE j \in 1..Len(o.kinds) : o.kinds[j].k = k
  IN IF \E j \in 1..Len(o.kinds) : o.kinds[j].k \notin Kinds THEN "bad:something from nowhere"
     ELSE IF \E k \in Kinds : (\A j \in 1..Len(o.kinds) : o.kinds[j].k # k) THEN "bad:a kind is missing"
     ELSE IF \E k \in Kinds : o.kinds[KindAt(k)].n # On(Len(OfKind(q3, k)), Len(OfKind(q4, k))) THEN "bad:number of items"
     ELSE IF \E k \in Kinds : o.kinds[KindAt(k)].len # On(TextLen(OfKind(q3, k)), TextLen(OfKind(q4, k))) THEN "bad:length of items"
     ELSE IF FirstOf(q3) = FirstOf(q4) /\ Len(q3) > Ends /\ o.first # FirstOf(q4) THEN "bad:first items"
     ELSE IF LastOf(z3) = LastOf(z4) /\ Len(q3) > Ends /\ o.last # LastOf(z4) THEN "bad:last items"
     ELSE ""

-----------------------------------------------------------------------------
Read(p, m) == ParseFile(BulkText(p, m), "intended")
Unclear(p) == Read(p, 3).e # Read(p, 4).e \/ Read(p, 3).e \notin {"", "rej"}

\* C02, C05: parsing.
JudgeBulkTree(c, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF Unclear(c.p) THEN "gen:bulk"
  ELSE IF o.ok # (Read(c.p, 3).e = "") THEN IF o.ok THEN "bad:accepted" ELSE "bad:refused"
  ELSE IF ~o.ok THEN "ok:bulk refused"
  ELSE LET v == CensusVerdict(c.p, c.n, o, Items) IN IF v = "" THEN "ok:bulk" ELSE v

\* C03: c.q is another layout of the same.
JudgeBulkLayout(c, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF Unclear(c.p) \/ \E m \in {3, 4} : Read(c.p, m) # Read(c.q, m) THEN "gen:bulk"
  ELSE IF o.ok # o.ok2 THEN "bad:refused"
  ELSE IF ~o.ok THEN "ok:bulk refused"
  ELSE IF o.n # o.n2 THEN "bad:number of rules" ELSE IF o.deep THEN "ok:bulk" ELSE "bad:rules differ"

\* C09: walking, C10: searching.
JudgeBulkWalk(c, o) ==
  LET Q(rs) == IF c.api = "contains" THEN Sought(Visits(FileNode(rs), ""), c.stop) ELSE Visits(FileNode(rs), c.stop)
      q4    == Visits(FileNode(Read(c.p, 4).rs), "")
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF Unclear(c.p) THEN "gen:bulk"
     ELSE IF Read(c.p, 3).e # "" THEN IF o.parsed THEN "ok:accept" ELSE "ok:bulk refused"      \* C04's concern
     ELSE IF ~o.parsed THEN "ok:bulk refused"     \* C04's concern
     ELSE LET v == CensusVerdict(c.p, c.n, o, Q) IN
          IF v # "" THEN v
          ELSE IF c.api = "contains" /\ o.res # (\E j \in 1..Len(q4) : q4[j][1] = c.stop) THEN "bad:answer"
          ELSE "ok:bulk"

\* C10: of how many rules the queries hold.
JudgeBulkQuery(c, o) ==
  LET Q(m) == LET rs == Read(c.p, m).rs
                  N(F(_)) == Len(SelectSeq(rs, F))
              IN <<N(HasBinding), N(HasType), N(HasAux), N(HasAuxInt), N(HasEllipsis), N(HasTrailing)>>
      q3 == TLCEval(Q(3))
      q4 == TLCEval(Q(4))
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF Unclear(c.p) THEN "gen:bulk"
     ELSE IF Read(c.p, 3).e # "" THEN IF o.parsed THEN "ok:accept" ELSE "ok:bulk refused"      \* C04's concern
     ELSE IF ~o.parsed THEN "ok:bulk refused"     \* C04's concern
     ELSE IF \E i \in 1..6 : o.has[i] # q3[i] + (c.n - 3) * (q4[i] - q3[i]) THEN "bad:number of rules with a feature"
     ELSE "ok:bulk"

\* C20: lines of a dump, and what is printed in them apart from numbers and indentation.
JudgeBulkDump(c, o) ==
  LET Ignored  == DigitChar \cup {" ", "."}
      Ink(s)   == Cardinality({j \in 1..Len(s) : At(s, j) \notin Ignored})
      RECURSIVE InkOf(_)
      InkOf(ls) == IF ls = <<>> THEN 0 ELSE Ink(Head(ls).s) + InkOf(Tail(ls))
      d3 == TLCEval(D!DumpFile(Read(c.p, 3).rs))
      d4 == TLCEval(D!DumpFile(Read(c.p, 4).rs))
      On(a, b) == a + (c.n - 3) * (b - a)
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF Unclear(c.p) THEN "gen:bulk"
     ELSE IF Read(c.p, 3).e # "" THEN IF o.parsed THEN "ok:accept" ELSE "ok:bulk refused"      \* C04's concern
     ELSE IF ~o.parsed THEN "ok:bulk refused"     \* C04's concern
     ELSE IF ~o.ok THEN "bad:not dumped"
     ELSE IF o.lines # On(Len(d3), Len(d4)) THEN "bad:number of lines"
     ELSE IF o.ink # On(InkOf(d3), InkOf(d4)) THEN "bad:something missing in the dump"
     ELSE "ok:bulk"

\* C19: where a text of many parts is wrong.
JudgeBulkLocate(c, o) ==
  LET At3 == Locate(BulkText(c.p, 3))
      At4 == Locate(BulkText(c.p, 4))
      V(m, lines) == LocationVerdict(BulkText(c.p, m), <<>>, <<>>, o.name, lines)
      Pos(lines) == PositionAt(lines[1], Len(Prefix(o.name)) + 1)
      p3 == Pos(o.l3).v
      p4 == Pos(o.l4).v
      p  == Pos(o.lines)
      On(a, b) == a + (c.n - 3) * (b - a)
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF At3.e # "rej" \/ At4.e # "rej" THEN "gen:bulk"
     ELSE IF o.ok THEN "ok:accept"          \* C04's concern
     ELSE IF V(3, o.l3) \notin {"ok:reject", "ok:element"} \/ V(4, o.l4) \notin {"ok:reject", "ok:element"} THEN "bad:" \o V(3, o.l3) \o ", " \o V(4, o.l4)
     ELSE IF o.lines = <<>> \/ ~HasAt(o.lines[1], 1, Prefix(o.name)) \/ ~p.ok THEN "bad:no source and position"
     ELSE IF p.v.off # On(p3.off, p4.off) \/ p.v.line # On(p3.line, p4.line) \/ p.v.col # On(p3.col, p4.col) THEN "bad:place"
     ELSE "ok:bulk"

\* C16: what is made of a text is the same each time, however many others there were.
JudgeBulkHistory(c, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.varied # 0 THEN "bad:answers vary"
  ELSE "ok:bulk"

\* C21: grammar file and parser.
JudgeBulkGrammar(c, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF Unclear(c.p) THEN "gen:bulk"
  ELSE IF o.ok # o.ok2 \/ ~o.deep THEN "bad:grammar and parser differ"
  ELSE IF o.ok # (Read(c.p, 3).e = "") THEN IF o.ok THEN "bad:accepted" ELSE "bad:refused"
  ELSE IF o.ok THEN "ok:bulk" ELSE "ok:bulk refused"
=============================================================================

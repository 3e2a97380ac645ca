------------------------------ MODULE JudgeText ------------------------------
(***************************************************************************)
(* Verdicts on recorded parses and prints (C01 - C06).                     *)
(*                                                                         *)
(* A trace line is a case plus o, what the real code did with it.  Every    *)
(* verdict is "ok:..." (the property held, and on what kind of case),      *)
(* "unk:..." (outside the modelled fragment: nothing is claimed),          *)
(* "kf:..." (a listed known finding), "gen:..." (the case itself is not    *)
(* what its generator claims: an error of the check) or "bad:...".         *)
(***************************************************************************)
EXTENDS Peg

Crashed(o) == o.panic # "" \/ o.hang
Kind(rs) == IF rs = <<>> THEN "empty" ELSE "accept"

\* Does the observed parse o agree with what the text denotes?
\* strict: a text outside the language must be refused.
JudgeParse(src, badutf8, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok = o.nil THEN "bad:file and error"
  ELSE IF badutf8 THEN IF o.ok THEN "bad:accepted bytes that are not UTF-8" ELSE "ok:badutf8"
  ELSE
    LET I == ParseFile(src, "intended")
        A == ParseFile(src, "actual")
        Agrees(x) == (x.e = "" /\ o.ok /\ o.rs = x.rs) \/ (x.e = "rej" /\ ~o.ok)
    IN IF I.e = "unk" THEN "unk:literal"
       ELSE IF Agrees(I) THEN IF o.ok THEN "ok:" \o Kind(o.rs) ELSE "ok:reject"
       ELSE IF A.e = "unk" THEN "unk:literal"
       ELSE IF Agrees(A) THEN "kf:KF1"
       ELSE IF I.e = "" /\ ~o.ok THEN "bad:refused"
       ELSE IF I.e = "rej" THEN "bad:accepted"
       ELSE "bad:rules differ"

\* s n times, with # the number of the time.
RECURSIVE NumberedFrom(_, _, _)
NumberedFrom(s, i, k) ==
  IF i > Len(s) THEN "" ELSE (IF SubSeq(s, i, i) = "#" THEN k ELSE SubSeq(s, i, i)) \o NumberedFrom(s, i + 1, k)
Numbered(s, k) == NumberedFrom(s, 1, k)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE Rep(s, n - 1) \o Numbered(s, "00000" \o ToString(n - 1))
BulkText(p, n) == p[1] \o Rep(p[2], n) \o p[3] \o Rep(p[4], n) \o p[5]
\* Is some text, for a few parts, that of the recipe w?
Foretold(w, T(_)) == w # <<>> /\ \A n \in {3, 4} : BulkText(w, n) = T(n)

\* Texts of n equal parts go on as those of a few do: as many more rules, and
\* as much more to print, for every part.  whole: not only printing matters.
JudgeBulk(c, o, whole) ==
  LET At3 == ParseFile(BulkText(c.p, 3), "intended")
      At4 == ParseFile(BulkText(c.p, 4), "intended")
      Text(n) == FileText(IF n = 3 THEN At3.rs ELSE At4.rs)
      On(a, b) == a + (c.n - 3) * (b - a)
      Extreme == c.p[1] = "" /\ c.p[2] = "(A " /\ c.n = 1000000
  IN IF Crashed(o) THEN IF Extreme THEN "kf:KF2" ELSE "bad:crash"
     ELSE IF o.ok = o.nil THEN "bad:file and error"
     ELSE IF At3.e # At4.e \/ At3.e = "unk" THEN "gen:bulk"
     ELSE IF Extreme /\ ~o.ok THEN "ok:bulk refused"
     ELSE IF o.ok # (At3.e = "") THEN IF ~whole THEN "ok:reject" ELSE IF o.ok THEN "bad:accepted" ELSE "bad:refused"
     ELSE IF ~o.ok THEN "ok:bulk refused"
     ELSE IF o.n # On(Len(At3.rs), Len(At4.rs)) THEN IF whole THEN "bad:number of rules" ELSE "ok:reject"
     ELSE IF ~o.pok THEN "bad:not printed"
     ELSE IF o.plen # On(Len(Text(3)), Len(Text(4))) THEN "bad:length of the printed text"
     ELSE IF whole /\ (~o.ok2 \/ ~o.deep) THEN "bad:printed text means something else"
     ELSE IF Foretold(c.w, Text) THEN IF o.same THEN "ok:bulk verbatim" ELSE "bad:canonical text printed differently"
     ELSE "ok:bulk"

\* o is what the grammar file makes of a text, and o.parser what the parser does.
JudgeGrammar(src, badutf8, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok # o.parser.ok \/ o.rs # o.parser.rs THEN "bad:grammar and parser differ"
  ELSE JudgeParse(src, badutf8, o)

\* C04 is about acceptance only.
JudgeAccept(src, badutf8, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok = o.nil THEN "bad:file and error"
  ELSE IF badutf8 THEN IF o.ok THEN "bad:accepted bytes that are not UTF-8" ELSE "ok:badutf8"
  ELSE
    LET I == ParseFile(src, "intended").e IN
    IF I = "unk" THEN "unk:literal"
    ELSE IF (I = "") = o.ok /\ (o.ok => Len(o.rs) = Len(ParseFile(src, "intended").rs))
    THEN IF o.ok THEN "ok:" \o Kind(o.rs) ELSE "ok:reject"
    ELSE LET A == ParseFile(src, "actual") IN
         IF A.e = "unk" THEN "unk:literal"
         ELSE IF (A.e = "") = o.ok /\ (o.ok => Len(o.rs) = Len(A.rs)) THEN "kf:KF1"
         ELSE IF o.ok THEN IF I = "" THEN "bad:number of rules" ELSE "bad:accepted"
         ELSE "bad:refused"

-----------------------------------------------------------------------------
\* C03: o.base is the observation of the reference layout.
JudgeLayout(src, base, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE
    LET I == ParseFile(src, "intended")
        B == ParseFile(base, "intended")
        A == ParseFile(src, "actual")
    IN IF I.e = "unk" \/ B.e = "unk" THEN "unk:literal"
       ELSE IF I.e # "" \/ I # B THEN "gen:not the same rules"
       ELSE IF ~o.base.ok THEN IF o.ok THEN "bad:reference layout refused" ELSE "ok:reject"
       ELSE IF o.ok /\ o.rs = o.base.rs
            THEN IF o.deep THEN "ok:" \o Kind(o.rs) ELSE "bad:trees of equal rules differ"
       ELSE IF A.e = "unk" THEN "unk:literal"
       ELSE IF o.base.rs = B.rs /\ A # I /\ ((A.e = "" /\ o.ok /\ o.rs = A.rs) \/ (A.e = "rej" /\ ~o.ok)) THEN "kf:KF1"
       ELSE IF ~o.ok THEN "bad:refused" ELSE "bad:rules differ"

-----------------------------------------------------------------------------
\* Rules of these observations are positions in the table o.tab of the distinct
\* rules seen.  C01: print observation p of the rules rs.
RoundOf(p, rs) ==
  IF ~p.pok THEN "bad:not printable"
  ELSE IF ~p.ok2 THEN "bad:printed text refused"
  ELSE IF p.rs2 # rs THEN "bad:rules differ after printing"
  ELSE IF ~p.deep THEN "bad:trees differ after printing"
  ELSE ""
FirstBad(vs) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(vs) THEN "" ELSE IF vs[i] # "" THEN vs[i] ELSE F(i + 1)
                IN F(1)
JudgeRound(o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF ~o.ok THEN "ok:reject"
  ELSE LET v == FirstBad(<<RoundOf(o.f, o.rs)>>
                  \o [i \in 1..Len(o.rs) |-> RoundOf(o.per[i], <<o.rs[i]>>)]
                  \o (IF o.x.xok THEN <<RoundOf(o.x.f, o.x.rs)>> ELSE <<>>))
       IN IF v # "" THEN v ELSE "ok:" \o Kind(o.rs)

\* C06
CanonOf(p, rs) ==
  IF ~p.pok THEN "bad:not printable"
  ELSE IF p.pr # FileText(rs) THEN "bad:not the canonical text"
  ELSE IF p.ok2 /\ (~p.pok2 \/ p.pr2 # p.pr) THEN "bad:not a fixpoint"
  ELSE ""
CanonRule(p, r) ==
  IF ~p.pok THEN "bad:rule not printable"
  ELSE IF p.pr # RuleText(r) THEN "bad:not the canonical text of the rule"
  ELSE IF p.ok2 /\ (~p.pok2 \/ p.pr2 # p.pr) THEN "bad:rule not a fixpoint"
  ELSE ""
Look(tab, is) == [i \in 1..Len(is) |-> tab[is[i]]]
\* every operator of a projected tree is known to the model
RECURSIVE KnownGo(_), KnownValue(_)
KnownGo(e) == CASE e.k \in {"id", "lit"} -> TRUE
                [] e.k \in {"par", "star", "un", "sel"} -> KnownGo(e.x)
                [] e.k = "bin" -> KnownGo(e.x) /\ KnownGo(e.y)
                [] e.k = "call" -> KnownGo(e.f) /\ \A i \in 1..Len(e.a) : KnownGo(e.a[i])
                [] OTHER -> FALSE
KnownValue(v) == CASE v.k = "v" -> TRUE
                   [] v.k = "e" -> KnownGo(v.e)
                   [] v.k = "s" -> /\ v.op.k # "?"
                                   /\ v.op.k = "p" => \A i \in 1..Len(v.op.ps) : v.op.ps[i].k # "?"
                                   /\ \A i \in 1..Len(v.ai) : KnownGo(v.ai[i])
                                   /\ \A i \in 1..Len(v.ax) : KnownGo(v.ax[i])
                                   /\ \A i \in 1..Len(v.a) : KnownValue(v.a[i])
                   [] OTHER -> FALSE
KnownRule(r) == KnownValue(r.m) /\ KnownValue(r.r) /\ \A i \in 1..Len(r.c) : KnownGo(r.c[i])
JudgeCanon(o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF ~o.ok THEN "ok:reject"
  ELSE IF \E i \in 1..Len(o.tab) : ~KnownRule(o.tab[i]) THEN "bad:unknown node"
  ELSE LET v == FirstBad(<<CanonOf(o.f, Look(o.tab, o.rs))>>
                  \o [i \in 1..Len(o.rs) |-> CanonRule(o.per[i], o.tab[o.rs[i]])]
                  \o (IF o.x.xok THEN <<CanonOf(o.x.f, Look(o.tab, o.x.rs))>> ELSE <<>>))
       IN IF v # "" THEN v ELSE "ok:" \o Kind(o.rs)
\* trees built by hand: printed canonically (they need not be readable)
JudgeTree(rs, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE LET v == FirstBad(<<CanonOf(o.f, rs)>> \o [i \in 1..Len(rs) |-> CanonRule(o.per[i], rs[i])])
       IN IF v # "" THEN v ELSE "ok:tree"

-----------------------------------------------------------------------------
\* C05: printed form of the tree e.
PrintedGo(o, e) ==
  IF ~o.pok THEN "bad:not printable"
  ELSE IF ~o.gok THEN "bad:printed text is not a Go expression"
  ELSE IF o.ge # e THEN "bad:printed text means something else"
  ELSE LET r == ReadGo(o.pr, PlainGo) IN
       IF r.e = "unk" THEN "unk:literal"
       ELSE IF r.e # "" \/ r.v # e THEN "bad:printed text does not denote the tree"
       ELSE "ok:accept"
JudgeExpr(src, slot, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE
    LET I == ParseFile(src, "intended")
        Of(rs) == CASE slot = "cond" -> rs[1].c [] slot = "ai" -> rs[1].m.ai [] slot = "ax" -> rs[1].m.ax
                    [] slot = "arg" -> IF rs[1].m.a # <<>> /\ rs[1].m.a[1].k = "e" THEN <<rs[1].m.a[1].e>> ELSE <<>>
                    [] slot = "res" -> IF rs[1].r.k = "e" THEN <<rs[1].r.e>> ELSE <<>>
    IN IF I.e = "unk" THEN "unk:literal"
       ELSE IF I.e = "rej" THEN "ok:reject"        \* C04's concern
       ELSE IF ~o.ok THEN "bad:refused"
       ELSE IF Len(I.rs) # 1 \/ Of(I.rs) = <<>> THEN "gen:not one expression"
       ELSE IF o.n # 1 \/ o.e.k = "none" THEN "bad:expression lost"
       ELSE IF o.e # Of(I.rs)[1] THEN "bad:tree differs"
       ELSE PrintedGo(o, o.e)
\* C19: what a refusal says of where the text is wrong.
JudgeLocate(c, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok = o.nil THEN "bad:file and error"
  ELSE IF o.ok THEN "ok:accept"         \* rightly or wrongly: C04's concern
  ELSE LET v == LocationVerdict(c.src, c.wide, c.bad, o.name, o.lines) IN
       IF v = "?" THEN "unk:literal" ELSE IF HasAt(v, 1, "ok:") THEN v ELSE "bad:" \o v

JudgeGoTree(e, o) == IF Crashed(o) THEN "bad:crash"
                     ELSE IF ~WellShaped(e) THEN "gen:tree no text denotes"
                     ELSE PrintedGo(o, e)
=============================================================================

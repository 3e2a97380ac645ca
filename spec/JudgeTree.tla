------------------------------ MODULE JudgeTree ------------------------------
(***************************************************************************)
(* Verdicts on recorded expansions (C07, C08) and queries (C10).           *)
(***************************************************************************)
EXTENDS JudgeText, Expand

RulesAre(tab, is, rs) == Len(is) = Len(rs) /\ \A i \in 1..Len(rs) : tab[is[i]] = rs[i]

JudgeExpand(rs, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE LET X == ExpandFile(rs) IN
  IF X.e # "" THEN "ok:mismatch"        \* C08's concern
  ELSE IF ~o.ok THEN "bad:not expanded"
  ELSE IF Len(o.rs) # Len(X.rs) THEN "bad:number of rules"
  ELSE IF ~RulesAre(o.tab, o.rs, X.rs) THEN "bad:not the rules it stands for"
  ELSE IF ~o.ok2 \/ o.rs2 # o.rs THEN "bad:expanding again changes something"
  ELSE IF rs = <<>> THEN "ok:empty"
  ELSE IF X.rs = rs THEN "ok:plain" ELSE "ok:expanded"

JudgeExpandFail(rs, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE LET X == ExpandFile(rs) IN
  IF ~RulesAre(o.tab, o.old, rs) \/ ~RulesAre(o.tab, o.old2, rs) THEN "bad:a rule was modified"
  ELSE IF o.ok # (X.e = "") THEN IF o.ok THEN "bad:no error" ELSE "bad:error"
  ELSE IF o.ok THEN "ok:expanded"
  ELSE IF ~o.identical \/ ~RulesAre(o.tab, o.rs, rs) THEN "bad:rules touched by a failure"
  ELSE IF o.ok2 \/ o.rs2 # o.rs THEN "bad:second attempt"
  ELSE "ok:mismatch"

\* Expanding a text of many equal parts, judged by texts of a few.
JudgeBulkExpand(c, o) ==
  LET F(n) == ParseFile(BulkText(c.p, n), "intended")
      X3 == ExpandFile(F(3).rs)
      X4 == ExpandFile(F(4).rs)
      On(a, b) == a + (c.n - 3) * (b - a)
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF F(3).e # "" \/ F(4).e # "" \/ X3.e # X4.e THEN "gen:bulk"
     ELSE IF ~o.parsed THEN "ok:bulk refused"     \* C04's concern
     ELSE IF o.ok # (X3.e = "") THEN IF o.ok THEN "bad:no error" ELSE "bad:error"
     ELSE LET A == IF o.ok THEN X3.rs ELSE F(3).rs
              B == IF o.ok THEN X4.rs ELSE F(4).rs
          IN IF o.n # On(Len(A), Len(B)) THEN "bad:number of rules"
             ELSE IF ~o.pok \/ o.plen # On(Len(FileText(A)), Len(FileText(B))) THEN "bad:length of the printed text"
             ELSE IF ~o.ok THEN "ok:bulk mismatch"
             ELSE LET Text(n) == FileText(IF n = 3 THEN A ELSE B)
                  IN IF c.w = <<>> THEN "ok:bulk"
                     ELSE IF ~Foretold(c.w, Text) THEN "gen:bulk"
                     ELSE IF o.same THEN "ok:bulk verbatim" ELSE "bad:rules differ"

JudgePred(r, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE LET want == <<HasBinding(r), HasType(r), HasAux(r), HasAuxInt(r), HasEllipsis(r), HasTrailing(r)>>
           got  == <<o.bind, o.t, o.ax, o.ai, o.el, o.tr>>
           name == <<"binding", "type", "aux", "auxint", "ellipsis", "trailing">>
       IN IF \E i \in 1..6 : want[i] # got[i]
          THEN "bad:" \o name[CHOOSE i \in 1..6 : want[i] # got[i]]
          ELSE IF o.after # r THEN "bad:rule modified"
          ELSE IF \E i \in 1..6 : want[i] THEN "ok:some" ELSE "ok:none"
=============================================================================

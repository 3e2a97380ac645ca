------------------------------ MODULE JudgeSmt ------------------------------
(***************************************************************************)
(* Verdicts on generated SMT scripts (C11 - C13).  o.ok: no error; o.none:   *)
(* no script was returned; o.out: the script.                               *)
(***************************************************************************)
EXTENDS Smt, JudgeTree

-----------------------------------------------------------------------------
(* Assignments to try for a rule. *)

Corners(w) == LET n == w \div 8 IN
  {BvZero(w), BvOne(w), BvOnes(w), [i \in 1..n |-> IF i = n THEN 128 ELSE 0], [i \in 1..n |-> (90 + 53 * i) % 256]}
Few(w) == {BvZero(w), BvOnes(w), [i \in 1..(w \div 8) |-> (19 + 101 * i) % 256]}
\* Arbitrary bytes.
Byte(a, b, c) == ((((a * 131 + b * 37 + c * 11 + 17) * 8191) % 65521) \div 7) % 256

RECURSIVE NoRepeats(_, _)
NoRepeats(s, seen) == IF s = <<>> THEN <<>>
                      ELSE IF Head(s) \in seen THEN NoRepeats(Tail(s), seen)
                      ELSE <<Head(s)>> \o NoRepeats(Tail(s), seen \cup {Head(s)})
VarSeq(r) == NoRepeats(Numbered(Occurrences(r.m) \o Occurrences(r.r), 1), {})

Arbitrary(r) ==
  LET vs == VarSeq(r)
      w  == WidthOf(RuleSort(r))
      Index(v) == CHOOSE i \in 1..Len(vs) : vs[i] = v
  IN {[v \in RuleVars(r) |-> [j \in 1..(w \div 8) |-> Byte(k, Index(v), j)]] : k \in 1..12}
Base(r) ==
  LET vs == RuleVars(r)
      n  == Cardinality(vs)
      w  == WidthOf(RuleSort(r))
  IN IF RuleSort(r) = "B" THEN [vs -> BOOLEAN]
     ELSE IF n <= 2 THEN [vs -> Corners(w)] \cup Arbitrary(r)
     ELSE IF n = 3 THEN [vs -> Few(w)] \cup Arbitrary(r)
     ELSE Arbitrary(r)

\* The same with the sides made equal, where that is easy: the result is a
\* variable found nowhere else, or the match is one added to something.
Once(r, n) == LET os == Numbered(Occurrences(r.m) \o Occurrences(r.r), 1)
              IN Cardinality({i \in 1..Len(os) : os[i] = n}) = 1
LastName(r) == LET os == Numbered(Occurrences(r.m) \o Occurrences(r.r), 1) IN os[Len(os)]
FirstName(r) == Numbered(Occurrences(r.m), 1)[1]
Levelled(r, vals) ==
  IF r.r.k = "v" /\ Once(r, LastName(r)) THEN [vals EXCEPT ![LastName(r)] = Sides(r, vals)[1]]
  ELSE IF r.m.a[1].k = "v" /\ r.m.op.n \in {"Add" \o w : w \in Widths} /\ Once(r, FirstName(r)) THEN
    LET zero == [vals EXCEPT ![FirstName(r)] = BvZero(WidthOf(RuleSort(r)))]
        s    == Sides(r, zero)
    IN [vals EXCEPT ![FirstName(r)] = BvSub(s[2], s[1])]
  ELSE vals
Assignments(r) == LET b == Base(r) IN b \cup {Levelled(r, v) : v \in b}

-----------------------------------------------------------------------------
(* C11. *)
JudgeMeaning(r, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF ~o.ok THEN "ok:refused"
  ELSE IF o.huge THEN "unk:too long to read"
  ELSE IF ~Supported(r) THEN "ok:meaningless"     \* C13's concern
  ELSE
    LET s  == ReadScript(o.out)
        st == RunScript(s.cs)
    IN IF ~s.ok THEN "bad:not a script"
       ELSE IF st.e = "?" THEN "unk:formula"
       ELSE IF st.ph \notin {"asserted", "checked", "done"} THEN "bad:no assertion"
       ELSE IF \E i \in 1..Len(st.d) : st.d[i].s # RuleSort(r) THEN "bad:sorts"
       ELSE IF ManyReadings(st, r) THEN "unk:readings"
       ELSE LET vs == Assignments(r) IN
            IF \E rd \in Readings(st, r) : \A v \in vs : TruthAgrees(st.f, rd, r, v)
            THEN IF \E v \in vs : Sides(r, v)[1] = Sides(r, v)[2]
                 THEN IF \E v \in vs : Sides(r, v)[1] # Sides(r, v)[2] THEN "ok:contingent" ELSE "ok:valid"
                 ELSE "ok:unequal"
            ELSE "bad:formula"

(* C12. *)
JudgeScript(r, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF ~o.ok THEN "ok:refused"
  ELSE IF o.huge THEN "unk:too long to read"
  ELSE LET c == Complaint(o.out, r) IN
       IF c = "" THEN "ok:script" ELSE IF c = "?" THEN "unk:formula" ELSE "bad:" \o c

(* C13. *)
JudgeRefusal(r, o) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok = o.none THEN "bad:script and error"
  ELSE IF Supported(r) THEN IF o.ok THEN "ok:generated" ELSE "bad:refused"
  ELSE IF o.ok THEN "bad:generated" ELSE "ok:refused"

\* Texts of many equal parts, judged by texts of a few.
JudgeBulkSmt(c, o) ==
  LET F(n) == ParseFile(BulkText(c.p, n), "intended")
      S(n) == {Supported(F(n).rs[i]) : i \in 1..Len(F(n).rs)}
  IN IF Crashed(o) THEN "bad:crash"
     ELSE IF F(3).e # "" \/ F(4).e # "" \/ S(3) # S(4) \/ Cardinality(S(3)) # 1 THEN "gen:bulk"
     ELSE IF ~o.parsed THEN "ok:bulk refused"     \* C04's concern
     ELSE IF \E i \in 1..Len(o.made) : o.made[i] # (TRUE \in S(3)) THEN "bad:generated or refused"
     ELSE IF TRUE \in S(3) THEN "ok:bulk" ELSE "ok:bulk unsupported"
=============================================================================

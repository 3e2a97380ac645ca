---------------------------- MODULE JudgeCommand ----------------------------
(***************************************************************************)
(* Verdicts on runs of the command (C14, C15).  o.ok: exit status 0; o.msg:   *)
(* what it said; o.files: files afterwards; o.lib: scripts of the library    *)
(* for the rules of the inputs.                                             *)
(***************************************************************************)
EXTENDS Command, JudgeSmt

LibScript(o, r) == LET m == {i \in 1..Len(o.lib) : o.lib[i].r = r}
                   IN IF m = {} THEN "(no script)" ELSE o.tab[o.lib[CHOOSE i \in m : TRUE].c]
Observed(o) == {[n |-> o.files[i].n, c |-> o.tab[o.files[i].c]] : i \in 1..Len(o.files)}

CountOf(s, t) == Cardinality({i \in 1..Len(s) : At(s, i) = At(t, 1) /\ HasAt(s, i, t)})

\* Every rule that cannot be translated was reported.
Reported(rs, msg) ==
  LET un == {n \in 1..Len(rs) : ~Supported(rs[n])} IN
  /\ \A t \in {RuleText(rs[n]) : n \in un} : Occurs(msg, 1, t)
  /\ un = {} \/ Cardinality(un) > 50 \/ CountOf(msg, "error") >= Cardinality(un)

JudgeRun(c, o, faults) ==
  IF Crashed(o) THEN "bad:crash"
  ELSE LET N == NumberedRules(c)
           faulty == N.e # "" \/ FirstBlocked(c, N.rs) >= 0
           p == RunComplaint(c, o.ok, Observed(o), LAMBDA r : LibScript(o, r))
       IN IF N.e = "unk" THEN "unk:input"
          ELSE IF faulty # faults THEN "ok:other"
          ELSE IF p # "" THEN "bad:" \o p
          ELSE IF faulty THEN IF o.msg = "" THEN "bad:no message" ELSE IF N.e # "" THEN "ok:" \o N.e ELSE "ok:unwritable"
          ELSE IF ~Reported(N.rs, o.msg) THEN "bad:not reported"
          ELSE IF \E n \in 1..Len(N.rs) : Supported(N.rs[n]) THEN "ok:written" ELSE "ok:nothing"

\* Runs on texts of many parts, each of which is a file by itself; input i is
\* given ins[i].copies times.
JudgeBulkRun(c, o, faults) ==
  LET Simple(t) == NumberedRules([ins |-> <<[k |-> "text", src |-> t]>>])
      part == [i \in 1..Len(c.ins) |-> [k \in 1..5 |-> Simple(c.ins[i].p[k])]]
      bad == \E i \in 1..Len(c.ins), k \in 1..5 : part[i][k].e # "" /\ (k \in {2, 4} => c.n > 0)
      known == [i \in 1..Len(c.ins) |-> [k \in 1..5 |-> [j \in 1..Len(part[i][k].rs) |->
                 [sup |-> Supported(part[i][k].rs[j]), c |-> LibScript(o, part[i][k].rs[j])]]]]
      times == [k \in 1..5 |-> IF k \in {2, 4} THEN c.n ELSE 1]
      one == [i \in 1..Len(c.ins) |-> Flat([k \in 1..5 |-> RepSeq(known[i][k], times[k])])]
      all == Flat([i \in 1..Len(c.ins) |-> RepSeq(one[i], c.ins[i].copies)])
      blocked == {n \in 0..(Len(all) - 1) : all[n + 1].sup /\ ScriptName(n) \in {c.pre[i].n : i \in {j \in 1..Len(c.pre) : c.pre[j].k # "file"}}}
      stop == IF blocked = {} THEN Len(all) ELSE CHOOSE n \in blocked : \A m \in blocked : n <= m
      new == IF bad THEN {} ELSE {[n |-> ScriptName(m), c |-> all[m + 1].c] : m \in {m \in 0..(stop - 1) : all[m + 1].sup}}
      named == Names(new)
      want == {f \in Files(c.pre) : f.n \notin named} \cup new
      faulty == bad \/ blocked # {}
      Rest(fs) == IF blocked = {} THEN fs ELSE {f \in fs : f.n # ScriptName(stop)}
  IN IF ~c.dir \/ Len(all) > 10000 \/ \E i \in 1..Len(c.ins), k \in 1..5 : part[i][k].e = "unk" THEN "gen:bulk run"
     ELSE IF Crashed(o) THEN "bad:crash"
     ELSE IF faulty # faults THEN "ok:other"
     ELSE IF o.ok = faulty THEN "bad:exit status of a bulk run"
     ELSE IF Rest(Observed(o)) # Rest(want) THEN "bad:files of a bulk run"
     ELSE IF faulty /\ ~o.said THEN "bad:no message"
     ELSE "ok:bulk run"

\* C19: the command passes on where the first bad input is wrong.
JudgeRunLocates(c, o) ==
  LET bad == {i \in 1..Len(c.ins) : ReadInput(c.ins[i]).e # ""} IN
  IF Crashed(o) THEN "bad:crash"
  ELSE IF o.ok \/ bad = {} THEN "ok:other"
  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
       IF c.ins[i].k # "text" \/ ReadInput(c.ins[i]).e = "unk" \/ Locate(c.ins[i].src).e # "rej" THEN "ok:other"
       ELSE LET at == {x \in 1..Len(o.msg) : HasAt(o.msg, x, o.names[i] \o ":")}
                v == {LocationVerdict(c.ins[i].src, c.ins[i].wide, <<>>, o.names[i], <<Slice(o.msg, x, Len(o.msg) + 1)>>) : x \in at}
            IN IF v \cap {"ok:reject", "ok:element"} # {} THEN "ok:command" ELSE "bad:not located by the command"
=============================================================================

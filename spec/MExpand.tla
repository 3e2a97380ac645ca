------------------------------- MODULE MExpand -------------------------------
(***************************************************************************)
(* Expansion as the implementation goes about it: rule by rule, and within  *)
(* a rule bottom up, resolving the number of choices on the way; the file   *)
(* changes in one final step.  It must agree with what Expand says the      *)
(* rules stand for, and leave the file alone when it fails.                 *)
(***************************************************************************)
EXTENDS Expand, Json, IOUtils

Budget == atoi(IOEnv.BUDGET)   \* total cost of the rules of a file

-----------------------------------------------------------------------------
(* Bottom-up expansion. [e, vs] with vs the alternatives of a value.         *)

\* Two numbers of alternatives met on the way; 0 when they do not fit.
Resolve(m, n) == IF m > 1 /\ n > 1 /\ m # n THEN 0 ELSE IF m > n THEN m ELSE n
Pick(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
RECURSIVE ResolveAll(_, _)
ResolveAll(n, ns) == IF ns = <<>> \/ n = 0 THEN n ELSE ResolveAll(Resolve(n, Head(ns)), Tail(ns))

OpAlternatives(op) ==
  IF op.k = "o" THEN [e |-> FALSE, vs |-> <<op>>]
  ELSE LET n == ResolveAll(1, OpCounts(op)) IN
       IF n = 0 THEN [e |-> TRUE, vs |-> <<>>]
       ELSE [e |-> FALSE, vs |-> [i \in 1..n |-> [k |-> "o", n |->
               Concat([j \in 1..Len(op.ps) |-> IF op.ps[j].k = "o" THEN op.ps[j].n ELSE Pick(op.ps[j].alts, i)])]]]
RECURSIVE Alternatives(_)
Alternatives(v) ==
  IF v.k # "s" THEN [e |-> FALSE, vs |-> <<v>>]
  ELSE
    LET o  == OpAlternatives(v.op)
        as == [i \in 1..Len(v.a) |-> Alternatives(v.a[i])]
        n  == ResolveAll(Len(o.vs), [i \in 1..Len(v.a) |-> Len(as[i].vs)])
    IN IF o.e \/ (\E i \in 1..Len(as) : as[i].e) \/ n = 0 THEN [e |-> TRUE, vs |-> <<>>]
       ELSE IF n = 1 THEN [e |-> FALSE, vs |-> <<v>>]
       ELSE [e |-> FALSE, vs |-> [i \in 1..n |-> [v EXCEPT !.op = Pick(o.vs, i), !.a = [j \in 1..Len(v.a) |-> Pick(as[j].vs, i)]]]]
RuleAlternatives(r) ==
  LET m == Alternatives(r.m)
      s == Alternatives(r.r)
      n == Resolve(Len(m.vs), Len(s.vs))
  IN IF m.e \/ s.e \/ n = 0 THEN [e |-> TRUE, vs |-> <<>>]
     ELSE IF n = 1 THEN [e |-> FALSE, vs |-> <<r>>]
     ELSE [e |-> FALSE, vs |-> [i \in 1..n |-> [r EXCEPT !.m = Pick(m.vs, i), !.r = Pick(s.vs, i)]]]

-----------------------------------------------------------------------------
VARIABLES st, cost, file,      \* building a file
          phase,               \* "build", "run", "ok", "failed"
          i, out, orig         \* expanding it
vars == <<st, cost, file, phase, i, out, orig>>

Init == st = <<>> /\ cost = 0 /\ file = <<>> /\ phase = "build" /\ i = 1 /\ out = <<>> /\ orig = <<>>

OpsAlpha == << [k |-> "o", n |-> "A"],
               [k |-> "p", ps |-> <<[k |-> "a", alts |-> <<"B", "C">>]>>],
               [k |-> "p", ps |-> <<[k |-> "o", n |-> "D"], [k |-> "a", alts |-> <<"1", "2", "3">>], [k |-> "o", n |-> "E"]>>],
               [k |-> "p", ps |-> <<[k |-> "a", alts |-> <<"5", "6">>], [k |-> "a", alts |-> <<"7", "8">>]>>],
               [k |-> "p", ps |-> <<[k |-> "a", alts |-> <<"5", "6">>], [k |-> "o", n |-> "x"], [k |-> "a", alts |-> <<"7", "8", "9">>]>>] >>

Building == phase = "build"
PushVar == /\ Building /\ Len(st) < 3 /\ cost < Budget
           /\ st' = Append(st, [k |-> "v", n |-> "x"]) /\ cost' = cost + 1 /\ UNCHANGED <<file, phase, i, out, orig>>
MkS(o, n) == /\ Building /\ Len(st) >= n /\ Len(st) - n < 3 /\ cost < Budget
             /\ st' = Append(SubSeq(st, 1, Len(st) - n),
                        [NewS EXCEPT !.op = OpsAlpha[o], !.a = SubSeq(st, Len(st) - n + 1, Len(st)), !.t = "t"])
             /\ cost' = cost + 1 /\ UNCHANGED <<file, phase, i, out, orig>>
MkRule == /\ Building /\ Len(st) = 2 /\ Len(file) < 2
          /\ file' = Append(file, [m |-> st[1], c |-> <<>>, b |-> "v.B", r |-> st[2]])
          /\ st' = <<>> /\ UNCHANGED <<cost, phase, i, out, orig>>
Start == /\ Building /\ st = <<>> /\ file # <<>>
         /\ phase' = "run" /\ orig' = file /\ UNCHANGED <<st, cost, file, i, out>>

StepRule == /\ phase = "run" /\ i <= Len(file) /\ ~RuleAlternatives(file[i]).e
            /\ out' = out \o RuleAlternatives(file[i]).vs /\ i' = i + 1 /\ UNCHANGED <<st, cost, file, phase, orig>>
Mismatch == /\ phase = "run" /\ i <= Len(file) /\ RuleAlternatives(file[i]).e
            /\ phase' = "failed" /\ UNCHANGED <<st, cost, file, i, out, orig>>
Commit   == /\ phase = "run" /\ i > Len(file)
            /\ file' = out /\ phase' = "ok" /\ UNCHANGED <<st, cost, i, out, orig>>
Next == PushVar \/ (\E o \in 1..Len(OpsAlpha), n \in 0..2 : MkS(o, n)) \/ MkRule \/ Start \/ StepRule \/ Mismatch \/ Commit
Spec == Init /\ [][Next]_vars

Denotes == phase = "ok" => ExpandFile(orig) = [e |-> "", rs |-> file]
FailsExactly == phase = "failed" => ExpandFile(orig).e # "" /\ file = orig
Idempotent == phase = "ok" => ExpandFile(file) = [e |-> "", rs |-> file]
NoGroups == phase = "ok" => \A q \in 1..Len(file) : Counts(file[q]) = <<>>
Untouched == phase = "run" => file = orig
Emit == phase \in {"ok", "failed"} => PrintT("E " \o ToJson([rs |-> orig]))
=============================================================================

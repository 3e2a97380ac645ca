------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Rules with alternative groups and the rules they stand for.             *)
(***************************************************************************)
EXTENDS Tree

\* Numbers of choices of all groups of a rule.
OpCounts(op) == IF op.k = "o" THEN <<>>
                ELSE Flat([i \in 1..Len(op.ps) |-> IF op.ps[i].k = "a" THEN <<Len(op.ps[i].alts)>> ELSE <<>>])
Counts(r) == LET ss == RuleSExprs(r) IN Flat([i \in 1..Len(ss) |-> OpCounts(ss[i].op)])

Matched(r) == LET c == Counts(r) IN \A i, j \in 1..Len(c) : c[i] = c[j]

\* The k-th choice everywhere.
ChooseOp(op, k) ==
  IF op.k = "o" THEN op
  ELSE [k |-> "o", n |-> Concat([i \in 1..Len(op.ps) |-> IF op.ps[i].k = "a" THEN op.ps[i].alts[k] ELSE op.ps[i].n])]
RECURSIVE ChooseValue(_, _)
ChooseValue(v, k) ==
  IF v.k = "s" THEN [v EXCEPT !.op = ChooseOp(@, k), !.a = [i \in 1..Len(v.a) |-> ChooseValue(v.a[i], k)]]
  ELSE v
ChooseRule(r, k) == [r EXCEPT !.m = ChooseValue(@, k), !.r = ChooseValue(@, k)]

\* The rules a (matched) rule stands for.
ExpandRule(r) == IF Counts(r) = <<>> THEN <<r>>
                 ELSE [k \in 1..Counts(r)[1] |-> ChooseRule(r, k)]
ExpandFile(rs) == IF \A i \in 1..Len(rs) : Matched(rs[i])
                  THEN [e |-> "", rs |-> Flat([i \in 1..Len(rs) |-> ExpandRule(rs[i])])]
                  ELSE [e |-> "mismatch", rs |-> <<>>]
=============================================================================

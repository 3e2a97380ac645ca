------------------------------ MODULE TraceWalk ------------------------------
(***************************************************************************)
(* Trace validation of traversals (C09) and containment queries (C10).     *)
(* Every call of the visitor or predicate is one event and must be the      *)
(* step the traversal machine takes.  Each line of the trace is one         *)
(* traversal: root, api, and o.ev, the events [w, n, ret], n referring to    *)
(* the table o.tab of nodes seen.                                          *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64

VARIABLES cursor,      \* line
          taken,      \* events consumed
          stack   \* nodes to be visited

vars == <<cursor, taken, stack>>
Start(n) == IF n <= Len(Trace) THEN <<Item(Trace[n].root, 1)>> ELSE <<>>

Init == cursor \in 1..Shards /\ taken = 0 /\ stack = Start(cursor)

o == Trace[cursor].o
Ev == o.ev[taken + 1]
InLine == cursor <= Len(Trace)
Crashed == o.panic # "" \/ o.hang

\* A containment query stops for good at its first hit.
Following(ret) == IF Trace[cursor].api = "contains" /\ ret = 1 THEN <<>>
                  ELSE IF Trace[cursor].api = "contains" THEN AfterVisit(stack, 1)
                  ELSE AfterVisit(stack, ret)

Expected == stack # <<>> /\ o.tab[Ev.n] = Head(stack).n /\ Ev.w = Head(stack).w /\ Ev.own

Step == /\ InLine /\ ~Crashed /\ taken < Len(o.ev) /\ Expected
        /\ stack' = Following(Ev.ret) /\ taken' = taken + 1 /\ cursor' = cursor

Verdict ==
  IF Crashed THEN "bad:crash"
  ELSE IF taken < Len(o.ev) THEN
    IF stack = <<>> THEN "bad:visited too much"
    ELSE IF ~Ev.own THEN "bad:not a node of the tree"
    ELSE IF o.tab[Ev.n] # Head(stack).n THEN "bad:visited another node"
    ELSE "bad:visited with another visitor"
  ELSE IF stack # <<>> THEN "bad:left out nodes"
  ELSE IF ~o.same THEN "bad:tree modified"
  ELSE IF Trace[cursor].api = "contains" THEN
    LET hit == taken > 0 /\ o.ev[taken].ret = 1 IN
    IF o.res # hit THEN "bad:wrong answer" ELSE IF hit THEN "ok:hit" ELSE "ok:miss"
  ELSE IF \E i \in 1..Len(o.ev) : o.ev[i].ret = 0 THEN "ok:pruned" ELSE "ok:full"

EndLine == /\ InLine /\ (IF Crashed \/ taken = Len(o.ev) THEN TRUE ELSE ~Expected)
           /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict)
           /\ cursor' = cursor + Shards /\ taken' = 0 /\ stack' = Start(cursor + Shards)

Next == Step \/ EndLine
Spec == Init /\ [][Next]_vars
=============================================================================

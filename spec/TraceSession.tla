---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Trace validation of sessions (C16).  Each line is one session; its        *)
(* events must be steps of Session.  memo starts with what the same          *)
(* invocations say in a process of their own, in another order.             *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64

VARIABLES cursor, taken
vars == <<heap, files, memo, cursor, taken>>

Dead(n) == Trace[n].o.panic # "" \/ Trace[n].o.hang
ColdMemo(n) == IF n <= Len(Trace) /\ ~Dead(n) THEN Trace[n].o.cold ELSE <<>>
Init == /\ cursor \in 1..Shards /\ taken = 0
        /\ heap = <<>> /\ files = <<>> /\ memo = ColdMemo(cursor)

o == Trace[cursor].o
Ev == o.ev[taken + 1]
InLine == cursor <= Len(Trace)

ReadOps == {"parse", "read", "file"}
Observed == heap' = Ev.objs /\ files' = Ev.fs
Event ==
  \/ Ev.op \in ReadOps /\ Ev.slot = 0 /\ Observed /\ Read(Ev.key, Ev.res)
  \/ Ev.op \in ReadOps /\ Ev.slot # 0 /\ Observed /\ ReadFile(Ev.key, Ev.res, Ev.fs[Ev.slot])
  \/ Ev.op = "share" /\ Observed /\ Share(Ev.slot)
  \/ Ev.op = "expand" /\ Observed /\ Expand(Ev.slot, Ev.key, Ev.res, Ev.fs[Ev.slot])
  \/ Ev.op \notin ReadOps \cup {"share", "expand"} /\ Observed /\ Query(Ev.key, Ev.res)
Step == InLine /\ ~Dead(cursor) /\ taken < Len(o.ev) /\ Event /\ taken' = taken + 1 /\ cursor' = cursor

Why ==
  IF Ev.op # "share" /\ memo[Ev.key] # Ev.res THEN "bad:" \o Ev.op \o " says something else"
  ELSE IF ~IsPrefixOf(heap, Ev.objs) THEN "bad:" \o Ev.op \o " changes a rule"
  ELSE "bad:" \o Ev.op \o " changes a file"
Verdict ==
  IF Dead(cursor) THEN "bad:crash"
  ELSE IF taken < Len(o.ev) THEN Why
  ELSE IF \E i \in 1..Len(o.par) : memo[o.par[i].key] # o.par[i].res
       THEN "bad:" \o o.par[CHOOSE i \in 1..Len(o.par) : memo[o.par[i].key] # o.par[i].res].op \o " says something else meanwhile"
  ELSE IF ~IsPrefixOf(heap, o.objs) THEN "bad:a rule changed meanwhile"
  ELSE IF files # o.fs THEN "bad:a file changed meanwhile"
  ELSE IF ~o.same THEN "bad:earlier output changed"
  ELSE IF o.par # <<>> THEN "ok:concurrent" ELSE "ok:history"

EndLine == /\ InLine /\ (IF Dead(cursor) THEN TRUE ELSE taken = Len(o.ev) \/ ~ENABLED Step)
           /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict)
           /\ cursor' = cursor + Shards /\ taken' = 0 /\ heap' = <<>> /\ files' = <<>> /\ memo' = ColdMemo(cursor + Shards)
Next == Step \/ EndLine
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE TraceReader ----------------------------
(***************************************************************************)
(* Trace validation of parsing from readers and files (C18).  Each line is  *)
(* one call: o.len the length of the text, o.ev the reads [length, end],     *)
(* o.ret what was returned, o.means what parsing the text as a string        *)
(* returns; both are [ok, nil, rules, message], rules and messages being     *)
(* numbers standing for their contents.                                    *)
(***************************************************************************)
EXTENDS Reader, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64

VARIABLES cursor, taken
vars == <<rvars, cursor, taken>>

InLine == cursor <= Len(Trace)
o == Trace[cursor].o
Dead == o.panic # "" \/ o.hang
Init == cursor \in 1..Shards /\ taken = 0 /\ ReaderInit

Ends == <<"", "eof", "fail">>
\* A text made of units times the same rules has units times as many.
Whole(r) == r.ok /\ o.unit >= 0 => r.n = o.unit * o.units
\* No rules come with a failure, and rules otherwise.
Clean(r) == r.nil # r.ok
Id(r) == IF r.ok THEN r.rules ELSE Failure

Step == /\ InLine /\ ~Dead /\ taken < Len(o.ev)
        /\ Read(o.ev[taken + 1][1], Ends[o.ev[taken + 1][2] + 1], o.len)
        /\ taken' = taken + 1 /\ UNCHANGED cursor
End == /\ InLine /\ ~Dead /\ taken = Len(o.ev) /\ Clean(o.ret) /\ Whole(o.ret)
       /\ Result(Id(o.ret), Id(o.means))
       /\ UNCHANGED <<cursor, taken>>

SameFailure == ~o.ret.ok /\ o.named /\ end = "eof" => o.ret.msg = o.means.msg
Verdict ==
  IF Dead THEN "bad:crash"
  ELSE IF taken < Len(o.ev) THEN "gen:reads"
  ELSE IF ret = Running THEN
    IF ~Clean(o.ret) THEN "bad:error and rules"
    ELSE IF ~Whole(o.ret) THEN "bad:not all the rules"
    ELSE IF end = "fail" THEN "bad:failure not reported"
    ELSE IF o.ret.ok /\ o.means.ok THEN "bad:other rules"
    ELSE IF o.ret.ok THEN "bad:accepted" ELSE "bad:rejected"
  ELSE IF ~SameFailure THEN "bad:another failure"
  ELSE IF end = "fail" THEN "ok:failed" ELSE IF o.ret.ok THEN "ok:rules" ELSE "ok:rejected"

Finished == Dead \/ ret # Running \/ (~ENABLED Step /\ ~ENABLED End)
NextLine == /\ InLine /\ Finished
            /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict)
            /\ cursor' = cursor + Shards /\ taken' = 0 /\ given' = 0 /\ end' = "" /\ ret' = Running
Next == Step \/ End \/ NextLine
Spec == Init /\ [][Next]_vars
=============================================================================

-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation of independent calls: the trace is a sequence of        *)
(* recorded calls, each of which must be a step the specification allows.   *)
(* The trace is cut into Shards interleaved subsequences.                   *)
(***************************************************************************)
EXTENDS JudgeCommand, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Shards == 64

Verdict(c) ==
  IF c.t = "bulk" THEN JudgeBulk(c, c.o, Prop # "C06") ELSE
  CASE Prop = "C01" -> JudgeRound(c.o)
    [] Prop = "C02" -> JudgeParse(c.src, c.badutf8, c.o)
    [] Prop = "C03" -> JudgeLayout(c.src, c.base, c.o)
    [] Prop = "C04" -> JudgeAccept(c.src, c.badutf8, c.o)
    [] Prop = "C05" -> IF c.t = "expr" THEN JudgeExpr(c.src, c.slot, c.o) ELSE JudgeGoTree(c.e, c.o)
    [] Prop = "C06" -> IF c.t = "tree" THEN JudgeTree(c.rs, c.o) ELSE JudgeCanon(c.o)
    [] Prop \in {"C07", "C08"} /\ c.t = "bulkexpand" -> JudgeBulkExpand(c, c.o)
    [] Prop = "C13" /\ c.t = "bulksmt" -> JudgeBulkSmt(c, c.o)
    [] Prop = "C07" -> JudgeExpand(c.rs, c.o)
    [] Prop = "C08" -> JudgeExpandFail(c.rs, c.o)
    [] Prop = "C10" -> JudgePred(c.r, c.o)
    [] Prop = "C11" -> JudgeMeaning(c.r, c.o)
    [] Prop = "C12" -> JudgeScript(c.r, c.o)
    [] Prop = "C13" -> JudgeRefusal(c.r, c.o)
    [] Prop = "C14" -> IF c.t = "bulkcli" THEN JudgeBulkRun(c, c.o, FALSE) ELSE JudgeRun(c, c.o, FALSE)
    [] Prop = "C15" -> IF c.t = "bulkcli" THEN JudgeBulkRun(c, c.o, TRUE) ELSE JudgeRun(c, c.o, TRUE)
    [] Prop = "C21" -> JudgeGrammar(c.src, c.badutf8, c.o)
    [] Prop = "C19" -> IF c.t = "cli" THEN JudgeRunLocates(c, c.o) ELSE JudgeLocate(c, c.o)

VARIABLE cursor
Init == cursor \in 1..Shards
Next == /\ cursor <= Len(Trace)
        /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict(Trace[cursor]))
        /\ cursor' = cursor + Shards
Spec == Init /\ [][Next]_cursor
=============================================================================

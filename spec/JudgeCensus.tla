------------------------------ MODULE JudgeCensus ------------------------------
(***************************************************************************)
(* Trace validation of calls on texts of many parts.                       *)
(***************************************************************************)
EXTENDS Census, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64

Verdict(c) ==
  CASE c.t = "bulktree"    -> JudgeBulkTree(c, c.o)
    [] c.t = "bulklayout"  -> JudgeBulkLayout(c, c.o)
    [] c.t = "bulkwalk"    -> JudgeBulkWalk(c, c.o)
    [] c.t = "bulkquery"   -> JudgeBulkQuery(c, c.o)
    [] c.t = "bulkdump"    -> JudgeBulkDump(c, c.o)
    [] c.t = "bulklocate"  -> JudgeBulkLocate(c, c.o)
    [] c.t = "bulkhistory" -> JudgeBulkHistory(c, c.o)
    [] c.t = "bulkgrammar" -> JudgeBulkGrammar(c, c.o)

VARIABLE cursor
Init == cursor \in 1..Shards
Next == /\ cursor <= Len(Trace)
        /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict(Trace[cursor]))
        /\ cursor' = cursor + Shards
Spec == Init /\ [][Next]_cursor
=============================================================================

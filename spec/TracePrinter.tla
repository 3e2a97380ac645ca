---------------------------- MODULE TracePrinter ----------------------------
(***************************************************************************)
(* Trace validation of printing to failing writers (C17, C20).  Each line is one *)
(* tree (root) and one run: o.w the writes [length, taken, error], o.acc    *)
(* what was accepted, o.ret what was returned.                              *)
(***************************************************************************)
EXTENDS Printer, Dump, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64

VARIABLES cursor, taken,   \* line, writes consumed
          text    \* the tree's text up to its first hole, and whether there is one
vars == <<pvars, cursor, taken, text>>

InLine == cursor <= Len(Trace)
o == Trace[cursor].o
Dead == o.panic # "" \/ o.hang

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE Repeat(s, n \div 2) \o Repeat(s, n - n \div 2)
NodeText(n) == CASE n.nk = "file" -> FileText(n.rs)
                 [] n.nk = "many" -> Repeat(FileText(n.rs), n.n)
                 [] n.nk = "rule" -> RuleText(n.r)
                 [] n.nk = "sexpr" -> ValueText(n.v)
                 [] n.nk = "expr" -> WriteGo(n.e)
                 [] n.nk = "var" -> n.n
                 [] n.nk = "opcode" -> n.n
                 [] n.nk = "parts" -> OpText(n.op)
                 [] OTHER -> Hole
TextOf(n) == IF n > Len(Trace) THEN [pre |-> "", broken |-> FALSE]
             ELSE IF Trace[n].api \in {"fdump", "dump", "pdump"} THEN [pre |-> DumpText(Trace[n].root), broken |-> FALSE]
             ELSE LET s == NodeText(Trace[n].root)
                      at == IF Trace[n].root.nk = "many" THEN {} ELSE {j \in 1..(Len(s) - Len(Hole) + 1) : HasAt(s, j, Hole)}
                  IN IF at = {} THEN [pre |-> s, broken |-> FALSE]
                     ELSE [pre |-> Slice(s, 1, CHOOSE j \in at : \A i \in at : j <= i), broken |-> TRUE]

Init == cursor \in 1..Shards /\ taken = 0 /\ PrinterInit /\ text = TextOf(cursor)

W == o.w[taken + 1]
Step == /\ InLine /\ ~Dead /\ taken < Len(o.w)
        /\ Write(W[1], W[2], W[3], Len(text.pre))
        /\ taken' = taken + 1 /\ UNCHANGED <<cursor, text>>
End == /\ InLine /\ ~Dead /\ taken = Len(o.w)
       /\ Return(o.ret, Len(text.pre), text.broken)
       /\ UNCHANGED <<cursor, taken, text>>

Verdict ==
  IF Dead THEN "bad:crash"
  ELSE IF ret = Running /\ taken < Len(o.w) THEN
    IF err # 0 THEN "bad:written after an error" ELSE "bad:written too much"
  ELSE IF ret = Running THEN
    IF o.ret = 0 THEN "bad:success reported"
    ELSE IF err = 0 /\ ~text.broken THEN "bad:failure reported"
    ELSE "bad:another error reported"
  ELSE IF o.acc # SubSeq(text.pre, 1, pos) THEN "bad:not the text"
  ELSE IF ~o.same THEN "bad:tree modified"
  ELSE IF err # 0 THEN IF text.broken THEN "ok:failed before a hole" ELSE IF pos = Len(text.pre) THEN "ok:failed at the end" ELSE "ok:failed"
  ELSE IF text.broken THEN "ok:hole" ELSE "ok:complete"

Finished == Dead \/ ret # Running \/ (~ENABLED Step /\ ~ENABLED End)
NextLine == /\ InLine /\ Finished
            /\ PrintT("V " \o ToString(cursor) \o " " \o Verdict)
            /\ cursor' = cursor + Shards /\ taken' = 0 /\ pos' = 0 /\ err' = 0 /\ ret' = Running /\ text' = TextOf(cursor + Shards)
Next == Step \/ End \/ NextLine
Spec == Init /\ [][Next]_vars
=============================================================================

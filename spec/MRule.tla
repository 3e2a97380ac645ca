-------------------------------- MODULE MRule --------------------------------
(***************************************************************************)
(* Building rules bottom up: every transition is one constructor.  All      *)
(* rules up to a cost bound are reached; each finished rule is a behaviour  *)
(* that is replayed into the real parser and printer.                       *)
(***************************************************************************)
EXTENDS RuleLang, FiniteSets, Json, IOUtils

Budget == atoi(IOEnv.BUDGET)

X == [k |-> "id", n |-> "c"]
E2 == [k |-> "bin", op |-> "-", x |-> X, y |-> [k |-> "un", op |-> "-", x |-> X]]
CallF == [k |-> "call", f |-> [k |-> "id", n |-> "f"], a |-> <<X, [k |-> "id", n |-> "_"]>>, v |-> FALSE]
Cond == [k |-> "bin", op |-> "&&", x |-> [k |-> "bin", op |-> "==", x |-> X, y |-> [k |-> "lit", v |-> "1"]],
         y |-> [k |-> "call", f |-> [k |-> "sel", x |-> X, n |-> "F"], a |-> <<X>>, v |-> TRUE]]

OpA == [k |-> "o", n |-> "A"]
OpAlt == [k |-> "p", ps |-> <<[k |-> "a", alts |-> <<"B", "C">>]>>]
OpPre == [k |-> "p", ps |-> <<OpA, [k |-> "a", alts |-> <<"8", "16">>]>>]
OpMid == [k |-> "p", ps |-> <<[k |-> "a", alts |-> <<"8", "16">>], [k |-> "o", n |-> "x"], [k |-> "a", alts |-> <<"D", "E", "D">>]>>]
OpCost(o) == IF o.k = "o" THEN 0 ELSE 1

Features == {"bind", "t", "ai", "ax", "el", "tr"}
With(v, fs) == [v EXCEPT !.bind = IF "bind" \in fs THEN "z" ELSE "", !.t = IF "t" \in fs THEN "typ.T" ELSE "",
                         !.ai = IF "ai" \in fs THEN <<E2>> ELSE <<>>, !.ax = IF "ax" \in fs THEN <<X>> ELSE <<>>,
                         !.el = "el" \in fs, !.tr = "tr" \in fs]

VARIABLES st, cost, done
vars == <<st, cost, done>>

Init == st = <<>> /\ cost = 0 /\ done = <<>>

Push(v, c) == /\ done = <<>> /\ Len(st) < 3 /\ cost + c <= Budget
              /\ st' = Append(st, v) /\ cost' = cost + c /\ UNCHANGED done
PushVar  == Push([k |-> "v", n |-> "x"], 1)
PushHole == Push([k |-> "v", n |-> "_"], 1)
PushCall == Push([k |-> "e", e |-> CallF], 1)

MkS(op, n, fs) ==
  /\ done = <<>> /\ Len(st) >= n /\ Len(st) - n < 3 /\ cost + 1 + OpCost(op) + Cardinality(fs) <= Budget
  /\ LET args == SubSeq(st, Len(st) - n + 1, Len(st))
         v    == With([NewS EXCEPT !.op = op, !.a = args], fs)
     IN st' = Append(SubSeq(st, 1, Len(st) - n), v)
  /\ cost' = cost + 1 + OpCost(op) + Cardinality(fs) /\ UNCHANGED done

Finish(c, b) ==
  /\ done = <<>> /\ Len(st) = 2 /\ cost + Len(c) + (IF b = "" THEN 0 ELSE 1) <= Budget
  /\ done' = <<[m |-> st[1], c |-> c, b |-> b, r |-> st[2]]>>
  /\ cost' = cost + Len(c) + (IF b = "" THEN 0 ELSE 1) /\ UNCHANGED st

Next == \/ PushVar \/ PushHole \/ PushCall
        \/ \E op \in {OpA, OpAlt, OpPre, OpMid}, n \in 0..2, fs \in SUBSET Features : MkS(op, n, fs)
        \/ \E c \in {<<>>, <<Cond>>}, b \in {"", "v.Block"} : Finish(c, b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == done # <<>>

\* The canonical text denotes the rule, whichever way conditions are read.
Readable == Finished => \A mode \in {"intended", "actual"} :
                          ParseFile(RuleText(done[1]), mode) = [e |-> "", rs |-> done]
\* Two rules in one text do not interfere.
Composes == Finished => ParseFile(FileText(done \o done), "intended").rs = done \o done
\* Items and gaps describe the same text.
Spaced(is) == Concat([i \in 1..Len(is) |-> is[i].s \o (IF is[i].g \in {"r", "n"} THEN " " ELSE "")])
ItemsAgree == Finished => ParseFile(Spaced(RuleItems(done[1])), "intended") = [e |-> "", rs |-> done]

Emit == Finished => PrintT("E " \o ToJson([src |-> RuleText(done[1]), rs |-> done]))
=============================================================================

-------------------------------- MODULE MExpr --------------------------------
(***************************************************************************)
(* Building Go expressions bottom up, one constructor per transition, up to *)
(* a cost bound.  The trees need not be ones that a text denotes; those     *)
(* that are must survive printing and reading.                              *)
(***************************************************************************)
EXTENDS GoExpr, Json, IOUtils

Budget == atoi(IOEnv.BUDGET)
Wide   == IOEnv.WIDE = "1"         \* all operators instead of one per behaviour

Un  == IF Wide THEN UnaryOps ELSE {"-", "&", "^", "!"}
Bin == IF Wide THEN BinaryOps ELSE {"||", "&&", "<", "-", "^", "/", "&", "&^"}
Lit == IF Wide THEN {"1", "1.", "0x1F", "'a'", "\"s\""} ELSE {"1"}

VARIABLES st, cost, done
vars == <<st, cost, done>>
Init == st = <<>> /\ cost = 0 /\ done = FALSE

Top == st[Len(st)]
Sec == st[Len(st) - 1]
Drop(n) == SubSeq(st, 1, Len(st) - n)
Put(s, e) == /\ ~done /\ cost < Budget /\ Len(s) < 3
             /\ st' = Append(s, e) /\ cost' = cost + 1 /\ UNCHANGED done

Name   == Put(st, [k |-> "id", n |-> "a"])
Number == \E v \in Lit : Put(st, [k |-> "lit", v |-> v])
Paren  == st # <<>> /\ Put(Drop(1), [k |-> "par", x |-> Top])
Unary  == st # <<>> /\ \E op \in Un : Put(Drop(1), [k |-> "un", op |-> op, x |-> Top])
Deref  == st # <<>> /\ Put(Drop(1), [k |-> "star", x |-> Top])
Select == st # <<>> /\ Put(Drop(1), [k |-> "sel", x |-> Top, n |-> "F"])
Binary == Len(st) >= 2 /\ \E op \in Bin : Put(Drop(2), [k |-> "bin", op |-> op, x |-> Sec, y |-> Top])
Call0  == st # <<>> /\ Put(Drop(1), [k |-> "call", f |-> Top, a |-> <<>>, v |-> FALSE])
Call1  == Len(st) >= 2 /\ \E v \in BOOLEAN : Put(Drop(2), [k |-> "call", f |-> Sec, a |-> <<Top>>, v |-> v])
Finish == ~done /\ Len(st) = 1 /\ done' = TRUE /\ UNCHANGED <<st, cost>>

Next == Name \/ Number \/ Paren \/ Unary \/ Deref \/ Select \/ Binary \/ Call0 \/ Call1 \/ Finish
Spec == Init /\ [][Next]_vars

\* What the printer writes is read as the tree it came from.
RoundTrip == done /\ WellShaped(Top) => ReadGo(WriteGo(Top), PlainGo) = [e |-> "", v |-> Top]
Emit == done /\ WellShaped(Top) => PrintT("E " \o ToJson([e |-> Top]))
=============================================================================

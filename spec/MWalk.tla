-------------------------------- MODULE MWalk --------------------------------
(***************************************************************************)
(* Traversal of small trees under every way of pruning and of handing over  *)
(* visitors.                                                               *)
(***************************************************************************)
EXTENDS Tree, FiniteSets, Json, IOUtils

Texts == <<
  "(A x) => y\n",
  "(A(B|C) <t> [c] {s} f(x)) && p => @b w:(D ...)\n",
  "a => (E [1] (F {2}))\n",
  "(G) => f(h(i))\n(J(K|L)M) => _\n" >>

VARIABLES root, stack, log, sched, used
vars == <<root, stack, log, sched, used>>

Roots == LET f == [i \in 1..Len(Texts) |-> FileNode(ParseFile(Texts[i], "intended").rs)] IN
         {f[i] : i \in 1..Len(Texts)}
Init == /\ root \in Roots /\ stack = <<Item(root, 1)>> /\ log = <<>> /\ sched = <<>> /\ used = 1

\* The visitor on top of the stack is called and returns nil, itself, or a
\* visitor not seen before.
Visit(d) == LET ret == CASE d = 0 -> 0 [] d = 1 -> Head(stack).w [] d = 2 -> used + 1 IN
            /\ stack # <<>>
            /\ stack' = AfterVisit(stack, ret)
            /\ log' = Append(log, [n |-> Head(stack).n, w |-> Head(stack).w, ret |-> ret])
            /\ sched' = Append(sched, d)
            /\ used' = IF d = 2 THEN used + 1 ELSE used
            /\ UNCHANGED root
Next == \E d \in {0, IF Len(log) % 2 = 0 THEN 1 ELSE 2} : Visit(d)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == stack = <<>>
Visited == [i \in 1..Len(log) |-> log[i].n]
Pre == Preorder(root)

\* Nothing is visited twice: what was visited, in order, is a subsequence of the preorder.
RECURSIVE SubSequence(_, _)
SubSequence(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                     ELSE IF Head(s) = Head(t) THEN SubSequence(Tail(s), Tail(t)) ELSE SubSequence(s, Tail(t))
InOrder == SubSequence(Visited, Pre)
\* Without pruning everything is visited.
Complete == Done /\ (\A i \in 1..Len(log) : log[i].ret # 0) => Visited = Pre
\* A walk leaves out exactly what lies below the pruned nodes.
RECURSIVE Below(_)
Below(n) == LET cs == Children(n) IN Flat([i \in 1..Len(cs) |-> Preorder(cs[i])])
RECURSIVE SumLen(_)
SumLen(ss) == IF ss = <<>> THEN 0 ELSE Len(Head(ss)) + SumLen(Tail(ss))
LeftOut == SelectSeq(log, LAMBDA e : e.ret = 0)
Exactly == Done => Len(log) + SumLen([i \in 1..Len(LeftOut) |-> Below(LeftOut[i].n)]) = Len(Pre)
Emit == Done => PrintT("E " \o ToJson([rs |-> root.rs, sched |-> sched]))
=============================================================================

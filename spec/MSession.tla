------------------------------ MODULE MSession ------------------------------
(***************************************************************************)
(* Threads using the library over a shared heap of rules, the longer         *)
(* operations in steps: expansion reads one rule at a time and puts a new    *)
(* list in place at the end, generation and printing go through the rules    *)
(* of their argument collecting output of their own.  Every interleaving     *)
(* must be a history of Session.  Yields the histories by order of           *)
(* invocation.                                                              *)
(***************************************************************************)
EXTENDS Session, Expand, Json, IOUtils

MaxOps  == atoi(IOEnv.OPS)
Threads == 1..atoi(IOEnv.THREADS)

Texts == << "(A(1|2) x) => b\n", "(B x) => (Add8 x x)\n(C(1|2) x) => (D(1|2|3))\n", "(B x) => \n" >>

VARIABLES pc,     \* what each thread is doing: [op, slot, arg, i, out]
          log     \* operations in order of invocation
vars == <<heap, files, memo, pc, log>>
Idle == [op |-> "", slot |-> 0, arg |-> <<>>, ids |-> <<>>, i |-> 0, out |-> <<>>]
Init == SessionInit /\ pc = [t \in Threads |-> Idle] /\ log = <<>>

Key(p) == <<p.op, p.arg>>
Rules(list) == [i \in 1..Len(list) |-> heap[list[i]]]
Free(t) == pc[t].op = "" /\ Len(log) < MaxOps
Busy(slot) == \E t \in Threads : pc[t].op = "expand" /\ pc[t].slot = slot

\* Reading a text is a step of its own.
Fresh(n) == [i \in 1..n |-> Len(heap) + i]
DoRead(t, n) ==
  /\ Free(t)
  /\ LET f == ParseFile(Texts[n], "intended")
         k == <<"parse", Texts[n]>>
     IN /\ heap' = heap \o f.rs
        /\ IF f.e = "" THEN ReadFile(k, f, Fresh(Len(f.rs))) ELSE Read(k, f)
  /\ log' = Append(log, [op |-> "parse", src |-> Texts[n], slot |-> 0, k |-> 0]) /\ UNCHANGED pc

\* Longer operations; an expansion has its file to itself.
Begin(t, op, slot) ==
  /\ Free(t) /\ slot \in 1..Len(files) /\ ~Busy(slot)
  /\ (op = "expand" => \A u \in Threads : pc[u].slot # slot)
  /\ pc' = [pc EXCEPT ![t] = [op |-> op, slot |-> slot, arg |-> Rules(files[slot]), ids |-> files[slot], i |-> 1, out |-> <<>>]]
  /\ log' = Append(log, [op |-> op, src |-> "", slot |-> slot - 1, k |-> 0])
  /\ UNCHANGED svars
Current(p) == heap[p.ids[p.i]]
More(t) == /\ pc[t].op # "" /\ pc[t].i <= Len(pc[t].ids)
\* One more rule: expansion creates the rules it stands for, if they are new.
ExpandMore(t) ==
  LET p == pc[t]
      r == Current(p)
      x == ExpandRule(r)
  IN /\ More(t) /\ p.op = "expand" /\ Matched(r)
     /\ IF x = <<r>> THEN heap' = heap /\ pc' = [pc EXCEPT ![t].i = @ + 1, ![t].out = Append(@, p.ids[p.i])]
        ELSE heap' = heap \o x /\ pc' = [pc EXCEPT ![t].i = @ + 1, ![t].out = @ \o Fresh(Len(x))]
     /\ UNCHANGED <<files, memo, log>>
ExpandFails(t) ==
  LET p == pc[t] IN
  /\ More(t) /\ p.op = "expand" /\ ~Matched(Current(p))
  /\ heap' = heap /\ Expand(p.slot, Key(p), "mismatch", p.ids)
  /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED log
ExpandDone(t) ==
  LET p == pc[t] IN
  /\ p.op = "expand" /\ p.i > Len(p.ids)
  /\ heap' = heap /\ Expand(p.slot, Key(p), Rules(p.out), p.out)
  /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED log
PrintMore(t) == /\ More(t) /\ pc[t].op = "print"
                /\ pc' = [pc EXCEPT ![t].i = @ + 1, ![t].out = Append(@, RuleText(Current(pc[t])) \o "\n")]
                /\ UNCHANGED <<svars, log>>
PrintDone(t) == LET p == pc[t] IN
                /\ p.op = "print" /\ p.i > Len(p.ids)
                /\ Query(Key(p), Concat(p.out)) /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED log
Next == \E t \in Threads :
          \/ \E n \in 1..Len(Texts) : DoRead(t, n)
          \/ \E s \in 1..Len(files) : Begin(t, "expand", s) \/ Begin(t, "print", s)
          \/ (Free(t) /\ \E s \in 1..Len(files) : ~Busy(s) /\ Len(files) < 3 /\ Share(s)
                /\ log' = Append(log, [op |-> "share", src |-> "", slot |-> s - 1, k |-> 0]) /\ UNCHANGED pc)
          \/ ExpandMore(t) \/ ExpandFails(t) \/ ExpandDone(t) \/ PrintMore(t) \/ PrintDone(t)
Spec == Init /\ [][Next]_vars

\* What invocations say is what their arguments mean.
Means(k) == CASE k[1] = "parse" -> ParseFile(k[2], "intended")
              [] k[1] = "print" -> FileText(k[2])
              [] k[1] = "expand" -> LET x == ExpandFile(k[2]) IN IF x.e = "" THEN x.rs ELSE x.e
Functional == \A k \in DOMAIN memo : memo[k] = Means(k)
Quiet == \A t \in Threads : pc[t].op = ""
NeverStuck == \A t \in Threads : pc[t].op # "" => ENABLED (ExpandMore(t) \/ ExpandFails(t) \/ ExpandDone(t) \/ PrintMore(t) \/ PrintDone(t))
Emit == Quiet /\ log # <<>> => PrintT("E " \o ToJson([ops |-> log]))
=============================================================================

------------------------------- MODULE MDump -------------------------------
(***************************************************************************)
(* Trees changing in one place after the other: every change shows.         *)
(***************************************************************************)
EXTENDS Dump, Json, IOUtils

Id(n) == [k |-> "id", n |-> n]
GoTrees == {Id("c"), Id("d"), [k |-> "lit", v |-> "1"], [k |-> "lit", v |-> "'1'"], [k |-> "lit", v |-> "\"c\""],
            [k |-> "un", op |-> "-", x |-> Id("c")], [k |-> "un", op |-> "+", x |-> Id("c")], [k |-> "star", x |-> Id("c")], [k |-> "par", x |-> Id("c")],
            [k |-> "bin", op |-> "-", x |-> Id("c"), y |-> Id("d")], [k |-> "bin", op |-> "-", x |-> Id("d"), y |-> Id("c")], [k |-> "sel", x |-> Id("c"), n |-> "d"],
            [k |-> "call", f |-> Id("c"), a |-> <<>>, v |-> FALSE], [k |-> "call", f |-> Id("c"), a |-> <<Id("d")>>, v |-> FALSE],
            [k |-> "call", f |-> Id("c"), a |-> <<Id("d")>>, v |-> TRUE], [k |-> "call", f |-> Id("c"), a |-> <<Id("d"), Id("c")>>, v |-> FALSE]}
Opts == {<<>>} \cup {<<e>> : e \in GoTrees}
Names == {"", "x", "y"}
Ops == {[k |-> "o", n |-> n] : n \in {"A", "B", "AB"}}
       \cup {[k |-> "p", ps |-> ps] : ps \in {<<[k |-> "o", n |-> "A"], [k |-> "a", alts |-> <<"B", "C">>]>>, <<[k |-> "a", alts |-> <<"A", "B", "C">>]>>,
                                             <<[k |-> "o", n |-> "A"], [k |-> "o", n |-> "B"]>>, <<[k |-> "a", alts |-> <<"A", "B">>], [k |-> "a", alts |-> <<"C">>]>>}}
Leaf(op) == [k |-> "s", bind |-> "", op |-> op, t |-> "", ai |-> <<>>, ax |-> <<>>, a |-> <<>>, el |-> FALSE, tr |-> FALSE]
Simple == {[k |-> "v", n |-> n] : n \in {"x", "y"}} \cup {[k |-> "e", e |-> e] : e \in GoTrees} \cup {Leaf([k |-> "o", n |-> "A"])}

\* Values that differ from v in one place.
RECURSIVE Changed(_)
Changed(v) ==
  Simple \cup
  IF v.k # "s" THEN {}
  ELSE {[v EXCEPT !.el = ~@], [v EXCEPT !.tr = ~@]} \cup {[v EXCEPT !.bind = n] : n \in Names} \cup {[v EXCEPT !.t = n] : n \in Names}
       \cup {[v EXCEPT !.op = p] : p \in Ops} \cup {[v EXCEPT !.ai = c] : c \in Opts} \cup {[v EXCEPT !.ax = c] : c \in Opts}
       \cup {[v EXCEPT !.a = Append(@, w)] : w \in Simple}
       \cup UNION {{[v EXCEPT !.a[x] = w] : w \in Changed(v.a[x])} : x \in 1..Len(v.a)}

VARIABLES rule, shown
vars == <<rule, shown>>
First == [m |-> Leaf([k |-> "o", n |-> "A"]), c |-> <<>>, b |-> "", r |-> [k |-> "v", n |-> "x"]]
To(r) == rule' = r /\ shown' = DumpRule(r)
Init == rule = First /\ shown = DumpRule(First)
Next == /\ TLCGet("level") <= atoi(IOEnv.CHANGES)
        /\ \/ \E v \in Changed(rule.m) : To([rule EXCEPT !.m = v])
           \/ \E v \in Changed(rule.r) : To([rule EXCEPT !.r = v])
           \/ \E c \in Opts : To([rule EXCEPT !.c = c])
           \/ \E b \in Names : To([rule EXCEPT !.b = b])
Spec == Init /\ [][Next]_vars
\* Every change shows.
Shows == [][rule' # rule => shown' # shown]_vars
\* Dumps show where they end, so that a file's show what each of its rules is.
Closed == \A x \in 1..Len(shown) : shown[x].i = 0 <=> x \in {1, Len(shown)}
Emit == PrintT("E " \o ToJson([r |-> rule]))
=============================================================================

-------------------------------- MODULE MSmt --------------------------------
(***************************************************************************)
(* Rules over machine operations, built one constructor at a time, sorts     *)
(* mixed up or not.  Checks that the reading of scripts and the meaning of   *)
(* rules fit together, and yields rules to translate.                       *)
(***************************************************************************)
EXTENDS Smt, Json, IOUtils

Budget == atoi(IOEnv.BUDGET)

Alphabet == {"Add8", "Sub8", "Neg8", "Com8", "Xor8", "Sub16", "And64", "EqB", "NeqB", "AndB", "Not"}
Names == {"x", "y", "_"}

VARIABLES st, cost, rule
vars == <<st, cost, rule>>
Init == st = <<>> /\ cost = 0 /\ rule = <<>>
Push(n) == /\ rule = <<>> /\ Len(st) < 3 /\ cost < Budget
           /\ st' = Append(st, [k |-> "v", n |-> n]) /\ cost' = cost + 1 /\ UNCHANGED rule
Op(o, n) == /\ rule = <<>> /\ Len(st) >= n /\ cost < Budget
            /\ st' = Append(SubSeq(st, 1, Len(st) - n),
                       [NewS EXCEPT !.op = [k |-> "o", n |-> o], !.a = SubSeq(st, Len(st) - n + 1, Len(st))])
            /\ cost' = cost + 1 /\ UNCHANGED rule
Finish == /\ rule = <<>> /\ Len(st) = 2
          /\ rule' = <<[m |-> st[1], c |-> <<>>, b |-> "", r |-> st[2]]>> /\ st' = <<>> /\ UNCHANGED cost
Next == (\E n \in Names : Push(n)) \/ (\E o \in Alphabet : Op(o, OpInfo[o].n)) \/ Finish
        \/ Op("Neg8", 2) \/ Op("Add8", 1)
Spec == Init /\ [][Next]_vars

Finished == rule # <<>>
Good == Finished /\ Supported(rule[1])
\* Values that tell the covered operations apart.
Tests(r) == IF RuleSort(r) = "B" THEN BOOLEAN
            ELSE LET w == WidthOf(RuleSort(r)) IN
                 {BvZero(w), BvOne(w), BvOnes(w), [i \in 1..(w \div 8) |-> IF i = w \div 8 THEN 128 ELSE 0],
                  [i \in 1..(w \div 8) |-> (90 + 53 * i) % 256]}
WellFormed == Good => Complaint(ScriptText(rule[1]), rule[1]) = ""
MeansIt == Good =>
  LET r == rule[1]
      s == RunScript(ReadScript(ScriptText(r)).cs)
  IN \E rd \in Readings(s, r) : \A vals \in [RuleVars(r) -> Tests(r)] :
       SidesAgree(s.f, rd, r, vals) /\ TruthAgrees(s.f, rd, r, vals)
Emit == Finished => PrintT("E " \o ToJson([rs |-> rule, sup |-> Supported(rule[1])]))
=============================================================================

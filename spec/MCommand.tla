------------------------------ MODULE MCommand ------------------------------
(***************************************************************************)
(* The command step by step, for every configuration of a few inputs with    *)
(* every kind of fault at every place.  Every run must end as Command says.  *)
(***************************************************************************)
EXTENDS Command, Json, IOUtils

MaxIn == atoi(IOEnv.INPUTS)

Txt(s) == [k |-> "text", src |-> s]
Inputs == { Txt("(Add8 x y) => x\n"), Txt("(Foo x) => y\n(Neg8 x) => x\n"), Txt("(Not x) && a => x\n// c\n(A [1] x) => (B x)\n"),
            Txt("(Sub(8|16) x y) => (Add(8|32) y x)\n"), Txt("(A(1|2|3) x) => (B(4|5) x)\n"), Txt("(A(1|2) <t> x) => (B(4|5|6) x)\n(Com64 x) => _\n"),
            Txt(""), Txt("(Add8 x y => x\n"), Txt("(Not x) => x\n(Add8 x"), [k |-> "missing", src |-> ""], [k |-> "dir", src |-> ""] }
Pres == { <<>>, <<[n |-> "0000.smt2", k |-> "file", c |-> "old"], [n |-> "notes", k |-> "file", c |-> "n"]>>,
          <<[n |-> "0000.smt2", k |-> "dir", c |-> ""]>>, <<[n |-> "0001.smt2", k |-> "full", c |-> ""]>>,
          <<[n |-> "0002.smt2", k |-> "dangling", c |-> ""], [n |-> "0003.smt2", k |-> "file", c |-> "old"]>> }

VARIABLES conf, ph, nth, todo, files
vars == <<conf, ph, nth, todo, files>>

Init == /\ \E n \in 0..MaxIn : \E ins \in [1..n -> Inputs], d \in BOOLEAN, p \in Pres :
             conf = [ins |-> ins, dir |-> d, pre |-> IF d THEN p ELSE <<>>]
        /\ ph = "load" /\ nth = 1 /\ todo = <<>> /\ files = Files(conf.pre)

Set(p) == ph' = p /\ UNCHANGED <<conf, nth, todo, files>>
Load == /\ ph = "load" /\ nth <= Len(conf.ins)
        /\ LET f == ReadInput(conf.ins[nth]) IN
           IF f.e = "" THEN todo' = todo \o f.rs /\ nth' = nth + 1 /\ UNCHANGED <<conf, ph, files>>
           ELSE Set("failed")
Prepare == /\ ph = "load" /\ nth > Len(conf.ins)
           /\ LET x == ExpandFile(SelectSeq(todo, IsSimple)) IN
              IF x.e # "" THEN Set("failed")
              ELSE todo' = x.rs /\ ph' = "write" /\ nth' = 0 /\ UNCHANGED <<conf, files>>
Put(c) == files' = {f \in files : f.n # ScriptName(nth)} \cup {[n |-> ScriptName(nth), c |-> c]}
Write == /\ ph = "write" /\ nth < Len(todo)
         /\ IF ~Supported(todo[nth + 1]) THEN nth' = nth + 1 /\ UNCHANGED <<conf, ph, todo, files>>
            ELSE IF Blocked(conf, nth) THEN Set("failed")
            ELSE Put(ScriptText(todo[nth + 1])) /\ nth' = nth + 1 /\ UNCHANGED <<conf, ph, todo>>
Finish == ph = "write" /\ nth = Len(todo) /\ Set("ok")
Next == Load \/ Prepare \/ Write \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == ph \in {"ok", "failed"}
EndsWell == Ended => RunComplaint(conf, ph = "ok", files, ScriptText) = ""
NothingEarly == ph = "load" => files = Files(conf.pre)
FailureTouchesNothingUnread == (ph = "failed" /\ NumberedRules(conf).e # "") => files = Files(conf.pre)
Terminates == <>Ended
Emit == Ended => PrintT("E " \o ToJson(conf))
=============================================================================

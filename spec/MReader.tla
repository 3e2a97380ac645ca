------------------------------ MODULE MReader ------------------------------
(***************************************************************************)
(* A parser collecting what a reader delivers, for every way of cutting a    *)
(* text into pieces (some of them empty), of failing at some point, and of   *)
(* reporting the end with the last piece or after it.                       *)
(***************************************************************************)
EXTENDS Reader, RuleLang, Json, IOUtils

Src == "a=>b c=>d"
Long == atoi(IOEnv.PIECES)
VARIABLES buf, sizes, late, failat
vars == <<rvars, buf, sizes, late, failat>>

Init == ReaderInit /\ buf = "" /\ sizes = <<>> /\ late \in BOOLEAN /\ failat \in 0..(Len(Src) + 1)
\* The reader has this much to deliver before it ends.
Total == IF failat > Len(Src) THEN Len(Src) ELSE failat
Ending == IF failat > Len(Src) THEN "eof" ELSE "fail"
Piece(n) ==
  /\ n <= Total - given /\ Len(sizes) < Long
  /\ (Len(sizes) = Long - 1 => n = Total - given)
  /\ (n = 0 /\ Len(sizes) > 0 => sizes[Len(sizes)] # 0)
  /\ Read(n, IF late /\ n > 0 /\ given + n = Total THEN Ending ELSE "", Len(Src))
  /\ buf' = buf \o SubSeq(Src, given + 1, given + n) /\ sizes' = Append(sizes, n)
  /\ UNCHANGED <<late, failat>>
Deliver == end = "" /\ \E n \in 0..Len(Src) : Piece(n)
Finish == end = "" /\ given = Total /\ Read(0, Ending, Len(Src)) /\ UNCHANGED <<buf, sizes, late, failat>>
\* Identities of rules: the number of them, here.
Number(s) == LET f == ParseFile(s, "intended") IN IF f.e = "" THEN Len(f.rs) ELSE Failure
Means == TLCEval(Number(Src))
Parse == /\ end # "" /\ Result(IF end = "fail" THEN Failure ELSE Number(buf), Means)
         /\ UNCHANGED <<buf, sizes, late, failat>>
Next == Deliver \/ Finish \/ Parse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == ret \notin {Running, Failure} => buf = Src /\ end = "eof"
NoPart == end = "fail" /\ ret # Running => ret = Failure
Returns == <>(ret # Running)
Emit == ret # Running => PrintT("E " \o ToJson([sizes |-> sizes, late |-> late, failat |-> IF failat > Len(Src) THEN Len(Src) + 1 ELSE failat]))
=============================================================================

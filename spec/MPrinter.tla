------------------------------ MODULE MPrinter ------------------------------
(***************************************************************************)
(* A printer and a writer: every way of cutting a short text into pieces,   *)
(* every way for the writer to take or to refuse them.  Yields what writers  *)
(* do: for each piece, whether all of it is taken (0), or an error reported  *)
(* with nothing (1), some (2) or all (3) of it taken, and whether the writer *)
(* would go on to take more (then = 0).                                     *)
(***************************************************************************)
EXTENDS Printer, Sequences, TLC, Json, IOUtils

N == atoi(IOEnv.LENGTH)
VARIABLES limit, broken, then, sched
vars == <<pvars, limit, broken, then, sched>>

Init == PrinterInit /\ sched = <<>> /\ then \in {0, 1}
        /\ limit \in 0..N /\ broken \in BOOLEAN
Took(n, len, e) == IF e = 0 THEN 0 ELSE IF n = 0 THEN 1 ELSE IF n < len THEN 2 ELSE 3
Piece(len, n, e) == Write(len, n, e, limit) /\ sched' = Append(sched, Took(n, len, e)) /\ UNCHANGED <<limit, broken, then>>
Offer == \E len \in 1..(limit - pos) : \E n \in 0..len : \E e \in {0, Len(sched) + 1} : Piece(len, n, e)
Finish == \E r \in {0, err, Own} : Return(r, limit, broken) /\ UNCHANGED <<sched, limit, broken, then>>
Next == Offer \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == ret = 0 => pos = limit /\ ~broken /\ err = 0
Reported == ret # Running /\ err # 0 => ret = err
Prefix == pos <= limit
FirstError == [][err # 0 => pos' = pos /\ err' = err]_vars
Returns == <>(ret # Running)
Emit == ret # Running /\ ret \notin {0, Own} => PrintT("E " \o ToJson([sched |-> sched, then |-> then]))
=============================================================================

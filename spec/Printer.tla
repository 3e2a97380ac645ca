------------------------------ MODULE Printer ------------------------------
(***************************************************************************)
(* Printing a tree to a writer that may fail.                               *)
(*                                                                         *)
(*   pos  what the writer has accepted so far: that much of the text        *)
(*   err  0, or which error of the writer was the first one                 *)
(*   ret  Running, or what printing returned: 0 for success, the writer's   *)
(*        error of that number, or an error of the printer's own            *)
(*                                                                         *)
(* The pieces the text is written in are up to the printer.                 *)
(***************************************************************************)
EXTENDS Naturals

VARIABLES pos, err, ret
pvars == <<pos, err, ret>>

Running == 1000000
Own == 1000001

PrinterInit == pos = 0 /\ err = 0 /\ ret = Running

\* A piece of length len is offered; the writer takes n of it and reports e.
Write(len, n, e, limit) ==
  /\ ret = Running /\ err = 0
  /\ n <= len /\ (e = 0 => n = len)       \* that much is expected of writers
  /\ pos + n <= limit
  /\ pos' = pos + n /\ err' = e /\ UNCHANGED ret

\* limit: the length of the text, or of what precedes the first node that
\* has no text (broken).
Return(r, limit, broken) ==
  /\ ret = Running /\ ret' = r /\ UNCHANGED <<pos, err>>
  /\ IF err # 0 THEN r = err
     ELSE IF broken THEN r = Own
     ELSE r = 0 /\ pos = limit
=============================================================================

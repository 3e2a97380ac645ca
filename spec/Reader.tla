------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Parsing what a reader delivers.                                         *)
(*                                                                         *)
(*   given  how much of the text has been delivered                        *)
(*   end    "", or how the reader ended: "eof" or "fail"                    *)
(*   ret    Running, or what parsing returned: Failure, or the identity of   *)
(*          the rules (a number)                                            *)
(***************************************************************************)
EXTENDS Naturals

VARIABLES given, end, ret
rvars == <<given, end, ret>>

Running == 1000000
Failure == 0

ReaderInit == given = 0 /\ end = "" /\ ret = Running

\* The reader delivers n more characters of a text of that length, and with
\* them perhaps (e) the end.  A reader that has failed once has failed.
Read(n, e, length) ==
  /\ ret = Running
  /\ given' = given + n /\ given' <= length
  /\ (e = "eof" /\ end # "fail") => given' = length
  /\ end' = IF end # "" THEN end ELSE e
  /\ UNCHANGED ret

\* What the whole text says is means: Failure, or its rules.
Result(r, means) ==
  /\ ret = Running /\ ret' = r /\ UNCHANGED <<given, end>>
  /\ CASE end = "eof" -> r = means
       [] end = "fail" -> r = Failure
       [] end = "" -> r = Failure /\ means = Failure   \* seen enough
=============================================================================

------------------------------ MODULE MCorpus -------------------------------
(***************************************************************************)
(* What given texts denote: each is read in one step, and its rules and what *)
(* they expand to are behaviours to replay.                                  *)
(***************************************************************************)
EXTENDS RuleLang, Expand, Json, IOUtils

Texts == ndJsonDeserialize(IOEnv.TEXTS)

VARIABLES nth, denoted
Init == nth \in DOMAIN Texts /\ denoted = <<>>
Read(x) == denoted' = <<x>>
Next == denoted = <<>> /\ Read(ParseFile(Texts[nth].src, "actual")) /\ UNCHANGED nth
Spec == Init /\ [][Next]_<<nth, denoted>>

Emit == denoted = <<>> \/ denoted[1].e # "" \/ PrintT("E " \o ToJson([src |-> Texts[nth].src, rs |-> denoted[1].rs, xs |-> ExpandFile(denoted[1].rs).rs]))
=============================================================================

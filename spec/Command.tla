------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* The ssarules command: reads rule files, keeps the simple rules, expands   *)
(* them and writes one script per rule that can be translated.              *)
(*                                                                         *)
(* A configuration is [ins, dir, pre]:                                      *)
(*  ins  the inputs in order, [k |-> "text", src], or another k when the     *)
(*       input cannot be read or is not text at all;                        *)
(*  dir  whether the output directory exists;                               *)
(*  pre  what is in it: [n, k, c], n a name, k = "file" with content c, or   *)
(*       another k when nothing can be written under that name.             *)
(***************************************************************************)
EXTENDS Smt

ScriptName(n) == Digits[((n \div 1000) % 10) + 1] \o Digits[((n \div 100) % 10) + 1]
                 \o Digits[((n \div 10) % 10) + 1] \o Digits[(n % 10) + 1] \o ".smt2"

Blocked(conf, n) == ~conf.dir \/ \E i \in 1..Len(conf.pre) : conf.pre[i].n = ScriptName(n) /\ conf.pre[i].k # "file"

\* Reading all inputs. [e, rs]
ReadInput(in) == IF in.k = "text" THEN ParseFile(in.src, "intended") ELSE [e |-> "rej", rs |-> <<>>]
ReadInputs(ins) ==
  LET fs == [i \in 1..Len(ins) |-> ReadInput(ins[i])]
      es == {fs[i].e : i \in 1..Len(ins)}
  IN IF "rej" \in es THEN [e |-> "rej", rs |-> <<>>]
     ELSE IF "unk" \in es THEN [e |-> "unk", rs |-> <<>>]
     ELSE [e |-> "", rs |-> Flat([i \in 1..Len(ins) |-> fs[i].rs])]
\* The numbered rules; number n is the n+1st.
NumberedRules(conf) ==
  LET l == ReadInputs(conf.ins) IN IF l.e # "" THEN l ELSE ExpandFile(SelectSeq(l.rs, IsSimple))

\* The number whose script cannot be written, -1 when there is none.
FirstBlocked(conf, rs) ==
  LET b == {n \in 0..(Len(rs) - 1) : Supported(rs[n + 1]) /\ Blocked(conf, n)}
  IN IF b = {} THEN 0 - 1 ELSE CHOOSE n \in b : \A m \in b : n <= m

Files(pre) == {[n |-> pre[i].n, c |-> pre[i].c] : i \in {j \in 1..Len(pre) : pre[j].k = "file"}}
Names(fs) == {f.n : f \in fs}
\* The files fs with scripts for the numbers below n written into them.
Overlay(fs, rs, n, Script(_)) ==
  LET w == {m \in 0..(n - 1) : Supported(rs[m + 1])}
      new == {[n |-> ScriptName(m), c |-> Script(rs[m + 1])] : m \in w}
  IN {f \in fs : f.n \notin Names(new)} \cup new

\* Is (exit status ok?, files) how a run of the configuration may end?
\* "" or a complaint.
RunComplaint(conf, ok, files, Script(_)) ==
  LET N == NumberedRules(conf)
      pre == Files(conf.pre)
  IN IF N.e = "unk" THEN "?"
     ELSE IF N.e # "" THEN
       IF ok THEN "success with bad input" ELSE IF files # pre THEN "files touched with bad input" ELSE ""
     ELSE LET b == FirstBlocked(conf, N.rs) IN
       IF b < 0 THEN
         LET want == Overlay(pre, N.rs, Len(N.rs), Script) IN
         IF ~ok THEN "failure"
         ELSE IF Names(files) # Names(want) THEN "which files" ELSE IF files # want THEN "contents of files" ELSE ""
       ELSE
         LET Rest(fs) == {f \in fs : f.n # ScriptName(b)} IN
         IF ok THEN "success though a script could not be written"
         ELSE IF Rest(files) # Rest(Overlay(pre, N.rs, b, Script)) THEN "files after failure"
         ELSE ""
=============================================================================

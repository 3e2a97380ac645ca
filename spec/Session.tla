------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A program using the library: rules are objects on a heap, files are lists *)
(* of them, and operations are invoked in some order, or at the same time.   *)
(*                                                                         *)
(*   heap   sequence of rules; the object with identity i is heap[i]         *)
(*   files  sequence of files, each a sequence of identities                *)
(*   memo   what every invocation so far (operation and argument) said       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES heap, files, memo
svars == <<heap, files, memo>>

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

\* Objects come into being but never change.
HeapGrows == IsPrefixOf(heap, heap')

\* An invocation says what it always says.
Says(key, res) == /\ key \in DOMAIN memo => memo[key] = res
                  /\ memo' = [k \in DOMAIN memo \cup {key} |-> IF k = key THEN res ELSE memo[k]]

SessionInit == heap = <<>> /\ files = <<>> /\ memo = <<>>

\* Looking at things.  What the caller keeps to itself, and perhaps alters, is
\* no part of the heap.
Query(key, res) == Says(key, res) /\ UNCHANGED <<heap, files>>
\* Reading a text: a new file of new objects, or none.
Read(key, res) == Says(key, res) /\ UNCHANGED <<heap, files>>
ReadFile(key, res, list) ==
  /\ Says(key, res) /\ HeapGrows
  /\ files' = Append(files, list)
  /\ \A i \in 1..Len(list) : list[i] > Len(heap)
  /\ \A i, j \in 1..Len(list) : i # j => list[i] # list[j]
\* Expanding a file: only its own list changes.
Expand(slot, key, res, list) ==
  /\ Says(key, res) /\ HeapGrows
  /\ files' = [files EXCEPT ![slot] = list]
\* Another file with the same rules.
Share(slot) == files' = Append(files, files[slot]) /\ UNCHANGED <<heap, memo>>

Frozen == [][HeapGrows]_svars
=============================================================================

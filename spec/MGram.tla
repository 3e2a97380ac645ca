-------------------------------- MODULE MGram --------------------------------
(***************************************************************************)
(* Texts growing token by token, as far as they are the beginning of a rule  *)
(* file.  Two readings of the language, RuleLang's and Peg's, are compared    *)
(* on each; each is a behaviour replayed into the real parser.              *)
(***************************************************************************)
EXTENDS Peg, Json, IOUtils

Tokens == TLCEval(
  IF IOEnv.TOKENS = "shape" THEN {"(", ")", "A", "x", " ", "=>", "z:", "_"}
  ELSE IF IOEnv.TOKENS = "operands" THEN {"<", ">", "[c]", "{-", "}", " ", "x", "...", "___", ")", "f("}
  ELSE IF IOEnv.TOKENS = "conds" THEN {" ", "&&", "=>", "c", "-", "\"", "//", "\n", "@", "b"}
  ELSE IF IOEnv.TOKENS = "ops" THEN {"B", "(", ")", "|", "1", " ", "(B|C)"}
  ELSE {"f(", "x", "_", ",", ")", " ", "//", "\n", "if"})
Start == CASE IOEnv.TOKENS = "operands" -> "(A" [] IOEnv.TOKENS = "conds" -> "x" [] IOEnv.TOKENS = "ops" -> "(" [] IOEnv.TOKENS = "calls" -> "x=>" [] OTHER -> ""
Length == atoi(IOEnv.LENGTH)

VARIABLES text, size, where
vars == <<text, size, where>>
Fix(l) == [e |-> l.e, at |-> l.at, lo |-> l.lo, hi |-> l.hi]
Init == text = Start /\ size = 0 /\ where = Fix(Locate(Start))
\* Reading fails before the end, whatever follows.
Dead == where.e = "rej" /\ where.at = <<>> /\ where.hi <= Len(text)
Next == /\ size < Length /\ ~Dead
        /\ size' = size + 1
        /\ \E t \in Tokens : text' = text \o t
        /\ where' = Fix(Locate(text'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
A == ParseFile(text, "actual")
\* Both specifications of the language define the same texts.
Agree == where.e = A.e
\* Places are within the text.
Within == /\ 1 <= where.lo /\ where.lo <= where.hi /\ where.hi <= Len(text) + 1
          /\ \A x \in 1..Len(where.at) : where.at[x] <= Len(text)
\* What follows does not move the place of failure: text cut anywhere more than a
\* character behind the place fails there, too.
Prompt == Dead => \A m \in (where.hi + 1)..Len(text) : LET p == Locate(Slice(text, 1, m + 1)) IN p.e = "rej" /\ p.at = <<>> /\ p.hi = where.hi
Emit == PrintT("E " \o ToJson([src |-> text]))
=============================================================================

------------------------------- MODULE MLayout -------------------------------
(***************************************************************************)
(* Writing out a rule file item by item, choosing what stands in every gap. *)
(* At most K gaps get something else than the reference layout.             *)
(***************************************************************************)
EXTENDS RuleLang, Json, IOUtils

K == atoi(IOEnv.BUDGET)

\* Reference files that use every kind of gap between them.
Bases == <<
  "(A x) => b\n",
  "z:(A(8|16)y <typ.T> [c - 1] {s} x w:(B ...) ___) && c == 1 && !f(x, y...) => @v.Block (C x (D) _)\n",
  "(A f(x, g(_, y)) z) => h(f(x), y)\n",
  "(A ___) => (B ...)\n(C) && x.Uses + 1 <= 2 || p => f(a)\n_ => x\n",
  "" >>

Fillers == {" ", "\t", "\r", "\n", "  ", "\r\n", "\n\n", "//\n", "// c\n", " // c\n", "// c\n ", "//c\n//d\n",
            "\t//(B) => a\n\t", "///\n", "//\r\n", "\n//\n", "// && x => (y)\n", "//)\n", "// \"\n", "// ___ ... @b\n"}

\* Items of a file: an empty item in front, so that the first gap is the start.
FileItems(rs) == <<It("", "o")>> \o Flat([i \in 1..Len(rs) |-> SetGap(RuleItems(rs[i]), IF i < Len(rs) THEN "r" ELSE "o")])
Plain(g) == IF g \in {"r", "n"} THEN " " ELSE ""

VARIABLES sample,        \* which reference file
          items,    \* its items (constant; hidden by the view)
          written,        \* items written
          odd,      \* gaps that differ from the reference layout
          txt       \* text written
vars == <<sample, items, written, odd, txt>>
View == <<sample, written, odd, txt>>
Init == /\ sample \in 1..Len(Bases) /\ written = 0 /\ odd = 0 /\ txt = ""
        /\ items = FileItems(ParseFile(Bases[sample], "intended").rs)

More == written < Len(items)
Write(f, o) == written' = written + 1 /\ txt' = txt \o items[written + 1].s \o f /\ odd' = odd + o /\ UNCHANGED <<sample, items>>
Keep == More /\ Write(Plain(items[written + 1].g), 0)
Odd  == More /\ odd < K /\ items[written + 1].g # "" /\ \E f \in Fillers : Write(f, 1)
Next == Keep \/ Odd
Spec == Init /\ [][Next]_vars

Finished == ~More
SameRules == Finished => LET r == ParseFile(txt, "intended") IN r.e = "" /\ r = ParseFile(Bases[sample], "intended")
Emit == Finished => PrintT("E " \o ToJson([src |-> txt, base |-> Bases[sample]]))
=============================================================================

-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* What dumping a tree writes: a line for every field and every element of a *)
(* list, indented as they are nested, and numbered.  Fields without a value   *)
(* are left out.  A dump is a sequence of lines [i, s]: indentation and text. *)
(***************************************************************************)
EXTENDS Tree

Ln(s) == <<[i |-> 0, s |-> s]>>
In(ls) == [x \in 1..Len(ls) |-> [ls[x] EXCEPT !.i = @ + 1]]
Named(nm, ls) == [ls EXCEPT ![1].s = nm \o ": " \o @]
Star(ls) == [ls EXCEPT ![1].s = "*" \o @]

\* Plain text may have line breaks; quoted text has not.
RECURSIVE Plain(_)
Plain(s) == LET j == Find(s, 1, "\n") IN IF j > Len(s) THEN Ln(s) ELSE Ln(Slice(s, 1, j)) \o Plain(Slice(s, j + 1, Len(s) + 1))
Escaped(ch) == CASE ch = "\"" -> "\\\"" [] ch = "\\" -> "\\\\" [] ch = "\n" -> "\\n" [] ch = "\t" -> "\\t" [] ch = "\r" -> "\\r" [] OTHER -> ch
Quoted(s) == Ln("\"" \o Concat([j \in 1..Len(s) |-> Escaped(At(s, j))]) \o "\"")

Braced(head, ls) == IF ls = <<>> THEN Ln(head \o " {}") ELSE Ln(head \o " {") \o In(ls) \o Ln("}")
\* fields: sequence of <<name, lines>>
Struct(ty, fields) == Star(Braced(ty, Flat([x \in 1..Len(fields) |-> Named(fields[x][1], fields[x][2])])))
List(ty, els) == Braced("[]" \o ty \o " (len = " \o ToString(Len(els)) \o ")", Flat([x \in 1..Len(els) |-> Named(ToString(x - 1), els[x])]))
When(c, fields) == IF c THEN fields ELSE <<>>
F(nm, ls) == <<<<nm, ls>>>>
Flag(b) == Ln(IF b THEN "true" ELSE "false")

LitKind(v) == CASE At(v, 1) \in {"\"", "`"} -> "STRING" [] At(v, 1) = "'" -> "CHAR"
                [] At(v, Len(v)) = "i" -> "IMAG"
                [] OTHER -> LET hex == At(v, 1) = "0" /\ At(v, 2) \in {"x", "X"} IN
                            IF \E j \in 1..Len(v) : At(v, j) \in ({".", "p", "P"} \cup IF hex THEN {} ELSE {"e", "E"}) THEN "FLOAT" ELSE "INT"

RECURSIVE DumpGo(_)
GoField(nm, e) == When(e.k # "nil", F(nm, DumpGo(e)))
DumpId(n) == Struct("ast.Ident", F("NamePos", Ln("0")) \o F("Name", Quoted(n)))
DumpGo(e) ==
  CASE e.k = "id" -> DumpId(e.n)
    [] e.k = "lit" -> Struct("ast.BasicLit", F("ValuePos", Ln("0")) \o F("Kind", Ln(LitKind(e.v))) \o F("Value", Quoted(e.v)))
    [] e.k = "par" -> Struct("ast.ParenExpr", F("Lparen", Ln("0")) \o GoField("X", e.x) \o F("Rparen", Ln("0")))
    [] e.k = "un" -> Struct("ast.UnaryExpr", F("OpPos", Ln("0")) \o F("Op", Ln(e.op)) \o GoField("X", e.x))
    [] e.k = "bin" -> Struct("ast.BinaryExpr", GoField("X", e.x) \o F("OpPos", Ln("0")) \o F("Op", Ln(e.op)) \o GoField("Y", e.y))
    [] e.k = "star" -> Struct("ast.StarExpr", F("Star", Ln("0")) \o GoField("X", e.x))
    [] e.k = "sel" -> Struct("ast.SelectorExpr", GoField("X", e.x) \o F("Sel", DumpId(e.n)))
    [] e.k = "call" -> Struct("ast.CallExpr", GoField("Fun", e.f) \o F("Lparen", Ln("0"))
                         \o When(e.a # <<>>, F("Args", List("ast.Expr", [x \in 1..Len(e.a) |-> DumpGo(e.a[x])])))
                         \o F("Ellipsis", Ln(IF e.v THEN "1" ELSE "0")) \o F("Rparen", Ln("0")))
    [] e.k = "nil" -> Ln("nil")
    [] e.k = "unprintable" -> Struct("ast.IndexExpr", F("X", DumpId("a")) \o F("Lbrack", Ln("0")) \o F("Index", DumpId("b")) \o F("Rbrack", Ln("0")))

DumpExpr(e) == Struct("ast.Expr", GoField("Expr", e))
DumpOpt(nm, c) == When(c # <<>>, F(nm, DumpExpr(c[1])))
DumpPart(p) == CASE p.k = "o" -> Plain(p.n)
                 [] p.k = "a" -> List("", [x \in 1..Len(p.alts) |-> Plain(p.alts[x])])
                 [] p.k = "nil" -> Ln("nil")
\* The types of parts and of alternatives have names of their own.
Typed(ty, ls) == [ls EXCEPT ![1].s = ty \o Slice(@, 3, Len(@) + 1)]
DumpOp(op) == IF op.k = "o" THEN Plain(op.n)
              ELSE Typed("ast.OpcodeParts", List("", [x \in 1..Len(op.ps) |->
                IF op.ps[x].k = "a" THEN Typed("ast.OpcodeAlt", DumpPart(op.ps[x])) ELSE DumpPart(op.ps[x])]))

RECURSIVE DumpValue(_)
DumpValue(v) ==
  CASE v.k = "v" -> Plain(v.n)
    [] v.k = "e" -> DumpExpr(v.e)
    [] v.k = "nil" -> Ln("nil")
    [] v.k = "s" -> Struct("ast.SExpr",
         F("Binding", Plain(v.bind)) \o When(v.op.k # "nil", F("Op", DumpOp(v.op))) \o F("Type", Plain(v.t))
         \o DumpOpt("AuxInt", v.ai) \o DumpOpt("Aux", v.ax)
         \o When(v.a # <<>>, F("Args", List("ast.Value", [x \in 1..Len(v.a) |-> DumpValue(v.a[x])])))
         \o F("Ellipsis", Flag(v.el)) \o F("Trailing", Flag(v.tr)))
DumpRule(r) == Struct("ast.Rule", When(r.m.k # "nil", F("Match", DumpValue(r.m))) \o DumpOpt("Condition", r.c)
                      \o F("Block", Quoted(r.b)) \o When(r.r.k # "nil", F("Result", DumpValue(r.r))))
DumpFile(rs) == Struct("ast.File", When(rs # <<>>, F("Rules", List("*ast.Rule", [x \in 1..Len(rs) |-> DumpRule(rs[x])]))))

DumpNode(n) ==
  CASE n.nk = "file" -> DumpFile(n.rs)
    [] n.nk = "rule" -> DumpRule(n.r)
    [] n.nk = "sexpr" -> DumpValue(n.v)
    [] n.nk = "expr" -> DumpExpr(n.e)
    [] n.nk = "var" -> Plain(n.n)
    [] n.nk = "opcode" -> Plain(n.n)
    [] n.nk = "parts" -> DumpOp(n.op)
    [] n.nk = "alt" -> Typed("ast.OpcodeAlt", DumpPart(n.p))

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
Number(n) == LET d == ToString(n) IN Times(" ", 6 - Len(d)) \o d \o "  "
DumpText(n) == LET ls == TLCEval(DumpNode(n)) IN
  Concat([x \in 1..Len(ls) |-> (IF ls[x].s = "" THEN "" ELSE Number(x - 1) \o Times(".  ", ls[x].i) \o ls[x].s) \o "\n"])
=============================================================================

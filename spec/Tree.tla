-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Rule files as trees of nodes, traversal, and queries.                   *)
(*                                                                         *)
(* Nodes: [nk |-> "file", rs]  [nk |-> "rule", r]  [nk |-> "sexpr", v]      *)
(*        [nk |-> "expr", e]   [nk |-> "var", n]   [nk |-> "opcode", n]     *)
(*        [nk |-> "parts", op] [nk |-> "alt", p]                            *)
(***************************************************************************)
EXTENDS RuleLang

ExprNode(e) == [nk |-> "expr", e |-> e]
PartNode(p) == IF p.k = "o" THEN [nk |-> "opcode", n |-> p.n] ELSE [nk |-> "alt", p |-> p]
OpNode(op)  == IF op.k = "o" THEN [nk |-> "opcode", n |-> op.n] ELSE [nk |-> "parts", op |-> op]
ValueNode(v) == CASE v.k = "v" -> [nk |-> "var", n |-> v.n]
                  [] v.k = "e" -> ExprNode(v.e)
                  [] v.k = "s" -> [nk |-> "sexpr", v |-> v]
RuleNode(r) == [nk |-> "rule", r |-> r]
FileNode(rs) == [nk |-> "file", rs |-> rs]

MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

Children(n) ==
  CASE n.nk = "file" -> MapSeq(RuleNode, n.rs)
    [] n.nk = "rule" -> <<ValueNode(n.r.m)>> \o MapSeq(ExprNode, n.r.c) \o <<ValueNode(n.r.r)>>
    [] n.nk = "sexpr" -> <<OpNode(n.v.op)>> \o MapSeq(ExprNode, n.v.ai) \o MapSeq(ExprNode, n.v.ax)
                         \o MapSeq(ValueNode, n.v.a)
    [] n.nk = "parts" -> MapSeq(PartNode, n.op.ps)
    [] OTHER -> <<>>

RECURSIVE Preorder(_)
Preorder(n) == LET cs == Children(n) IN <<n>> \o Flat([i \in 1..Len(cs) |-> Preorder(cs[i])])

-----------------------------------------------------------------------------
(* Traversal as a machine.  stack holds the nodes still to be visited, each  *)
(* with the visitor that will be called for it; visitor 0 is nil.            *)

Item(n, w) == [n |-> n, w |-> w]
\* The stack after the visitor on top was called and returned ret.
AfterVisit(stack, ret) ==
  LET cs == Children(Head(stack).n)
  IN (IF ret = 0 THEN <<>> ELSE [i \in 1..Len(cs) |-> Item(cs[i], ret)]) \o Tail(stack)

-----------------------------------------------------------------------------
(* Queries. *)

RECURSIVE SExprsOf(_)
SExprsOf(v) == IF v.k = "s" THEN <<v>> \o Flat([i \in 1..Len(v.a) |-> SExprsOf(v.a[i])]) ELSE <<>>
RuleSExprs(r) == SExprsOf(r.m) \o SExprsOf(r.r)
Some(F(_), s) == \E i \in 1..Len(s) : F(s[i])
HasBinding(r)  == Some(LAMBDA s : s.bind # "", RuleSExprs(r))
HasType(r)     == Some(LAMBDA s : s.t # "", RuleSExprs(r))
HasAux(r)      == Some(LAMBDA s : s.ax # <<>>, RuleSExprs(r))
HasAuxInt(r)   == Some(LAMBDA s : s.ai # <<>>, RuleSExprs(r))
HasEllipsis(r) == Some(LAMBDA s : s.el, RuleSExprs(r))
HasTrailing(r) == Some(LAMBDA s : s.tr, RuleSExprs(r))

\* What the command keeps.
IsSimple(r) == /\ r.c = <<>> /\ r.b = ""
               /\ ~HasBinding(r) /\ ~HasType(r) /\ ~HasAux(r) /\ ~HasAuxInt(r)
               /\ ~HasEllipsis(r) /\ ~HasTrailing(r)
=============================================================================

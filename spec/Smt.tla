--------------------------------- MODULE Smt ---------------------------------
(***************************************************************************)
(* What a rule says about machine integers, which rules can be translated,  *)
(* and what an SMT-LIB script says: its text is read here, independently of *)
(* how it was written, down to the value of the asserted formula.           *)
(*                                                                         *)
(* Sorts: "B" and the widths "8", "16", "32", "64".                         *)
(***************************************************************************)
EXTENDS Expand, Bits, FiniteSets

Widths == {"8", "16", "32", "64"}
WidthOf(s) == CASE s = "8" -> 8 [] s = "16" -> 16 [] s = "32" -> 32 [] s = "64" -> 64

\* The operations of the generic machine that are covered: [f, s, n], the
\* family, the sort of operands and result, and the number of operands.
OpInfo == TLCEval(
  LET word == {[nm |-> f \o w, f |-> f, s |-> w, n |-> 2] : f \in {"Add", "Sub", "And", "Or", "Xor"}, w \in Widths}
              \cup {[nm |-> f \o w, f |-> f, s |-> w, n |-> 1] : f \in {"Neg", "Com"}, w \in Widths}
      bool == {[nm |-> f, f |-> f, s |-> "B", n |-> 2] : f \in {"AndB", "OrB", "EqB", "NeqB"}}
              \cup {[nm |-> "Not", f |-> "Not", s |-> "B", n |-> 1]}
      all  == word \cup bool
  IN TLCEval([nm \in {o.nm : o \in all} |-> CHOOSE o \in all : o.nm = nm]))
OpNames == TLCEval(DOMAIN OpInfo)

Apply(f, a) ==
  CASE f = "Add" -> BvAdd(a[1], a[2])
    [] f = "Sub" -> BvSub(a[1], a[2])
    [] f = "And" -> BvAnd(a[1], a[2])
    [] f = "Or"  -> BvOr(a[1], a[2])
    [] f = "Xor" -> BvXor(a[1], a[2])
    [] f = "Neg" -> BvNeg(a[1])
    [] f = "Com" -> BvNot(a[1])
    [] f = "AndB" -> a[1] /\ a[2]
    [] f = "OrB" -> a[1] \/ a[2]
    [] f = "EqB" -> a[1] = a[2]
    [] f = "NeqB" -> a[1] # a[2]
    [] f = "Not" -> ~a[1]

-----------------------------------------------------------------------------
(* Which rules can be translated. Occurrences: [n, s] for every variable     *)
(* with the sort its place demands; placeholders are numbered in order.      *)

PlainS(v) == v.bind = "" /\ v.t = "" /\ v.ai = <<>> /\ v.ax = <<>> /\ ~v.el /\ ~v.tr

\* Is v an acceptable term of sort s?
RECURSIVE TermOf(_, _)
TermOf(v, s) ==
  CASE v.k = "v" -> TRUE
    [] v.k = "e" -> FALSE
    [] v.k = "s" -> /\ PlainS(v) /\ v.op.k = "o" /\ v.op.n \in OpNames
                    /\ OpInfo[v.op.n].s = s /\ Len(v.a) = OpInfo[v.op.n].n
                    /\ \A i \in 1..Len(v.a) : TermOf(v.a[i], s)
RECURSIVE Occurrences(_)
Occurrences(v) == IF v.k = "v" THEN <<v.n>> ELSE Flat([i \in 1..Len(v.a) |-> Occurrences(v.a[i])])

\* All operations of a term have one sort, so a rule is over one sort.
RuleSort(r) == IF r.m.k = "s" /\ r.m.op.k = "o" /\ r.m.op.n \in OpNames THEN OpInfo[r.m.op.n].s ELSE ""
Supported(r) == /\ r.c = <<>> /\ r.b = "" /\ RuleSort(r) # ""
                /\ TermOf(r.m, RuleSort(r)) /\ TermOf(r.r, RuleSort(r))

\* The independent values a supported rule is about: its variables and, as
\* "_1", "_2", ..., its placeholders, match before result.
RECURSIVE Numbered(_, _)
Numbered(os, k) == IF os = <<>> THEN <<>>
                   ELSE IF Head(os) = "_" THEN <<"_" \o ToString(k)>> \o Numbered(Tail(os), k + 1)
                   ELSE <<Head(os)>> \o Numbered(Tail(os), k)
RuleVars(r) == LET os == Numbered(Occurrences(r.m) \o Occurrences(r.r), 1) IN {os[i] : i \in 1..Len(os)}

\* Value of a term; k placeholders were passed before it. [v, k]
RECURSIVE TermValue(_, _, _), TermValues(_, _, _)
TermValues(vs, env, k) ==
  IF vs = <<>> THEN [v |-> <<>>, k |-> k]
  ELSE LET h == TermValue(Head(vs), env, k)
           t == TermValues(Tail(vs), env, h.k)
       IN [v |-> <<h.v>> \o t.v, k |-> t.k]
TermValue(v, env, k) ==
  IF v.k = "v" THEN IF v.n = "_" THEN [v |-> env["_" \o ToString(k)], k |-> k + 1] ELSE [v |-> env[v.n], k |-> k]
  ELSE LET as == TermValues(v.a, env, k) IN [v |-> Apply(OpInfo[v.op.n].f, as.v), k |-> as.k]
Sides(r, env) == LET m == TermValue(r.m, env, 1) IN <<m.v, TermValue(r.r, env, m.k).v>>

-----------------------------------------------------------------------------
(* Reading scripts.  Tokens "(" and ")" and atoms; comments are collected.   *)

SymChar == TLCEval((WordChar \cup CharsOf("~!@$%^&*-+=<>.?/")))
RECURSIVE SmtScan(_, _, _, _)
SmtScan(s, i, toks, comments) ==
  LET c == At(s, i) IN
  IF i > Len(s) THEN [ok |-> TRUE, toks |-> toks, comments |-> comments]
  ELSE IF c \in LayoutChar THEN SmtScan(s, i + 1, toks, comments)
  ELSE IF c = ";" THEN LET j == Find(s, i, "\n") IN SmtScan(s, j, toks, Append(comments, Slice(s, i, j)))
  ELSE IF c \in {"(", ")"} THEN SmtScan(s, i + 1, Append(toks, c), comments)
  ELSE IF c = "|" THEN LET j == Find(s, i + 1, "|") IN
       IF j > Len(s) THEN [ok |-> FALSE, toks |-> <<>>, comments |-> comments]
       ELSE SmtScan(s, j + 1, Append(toks, Slice(s, i, j + 1)), comments)
  ELSE IF c = "\"" THEN LET j == Find(s, i + 1, "\"") IN
       IF j > Len(s) THEN [ok |-> FALSE, toks |-> <<>>, comments |-> comments]
       ELSE SmtScan(s, j + 1, Append(toks, Slice(s, i, j + 1)), comments)
  ELSE IF c \in SymChar \cup {":", "#"} THEN
       LET j == SpanEnd(s, i + 1, SymChar) IN SmtScan(s, j, Append(toks, Slice(s, i, j)), comments)
  ELSE [ok |-> FALSE, toks |-> <<>>, comments |-> comments]

\* S-expressions: [k |-> "a", s] or [k |-> "l", xs].
RECURSIVE SmtRead(_, _), SmtReadList(_, _, _)
SmtReadList(ts, i, acc) ==
  IF i > Len(ts) THEN PFail
  ELSE IF ts[i] = ")" THEN POk(i + 1, [k |-> "l", xs |-> acc])
  ELSE LET r == SmtRead(ts, i) IN IF r.ok THEN SmtReadList(ts, r.i, Append(acc, r.v)) ELSE PFail
SmtRead(ts, i) ==
  IF i > Len(ts) \/ ts[i] = ")" THEN PFail
  ELSE IF ts[i] = "(" THEN SmtReadList(ts, i + 1, <<>>)
  ELSE POk(i + 1, [k |-> "a", s |-> ts[i]])
RECURSIVE SmtReadAll(_, _, _)
SmtReadAll(ts, i, acc) ==
  IF i > Len(ts) THEN [ok |-> TRUE, cs |-> acc]
  ELSE LET r == SmtRead(ts, i) IN IF r.ok THEN SmtReadAll(ts, r.i, Append(acc, r.v)) ELSE [ok |-> FALSE, cs |-> <<>>]

\* [ok, cs, comments]
ReadScript(s) == LET t == SmtScan(s, 1, <<>>, <<>>)
                     r == IF t.ok THEN SmtReadAll(t.toks, 1, <<>>) ELSE [ok |-> FALSE, cs |-> <<>>]
                 IN [ok |-> r.ok, cs |-> r.cs, comments |-> t.comments]

Atom(x) == IF x.k = "a" THEN x.s ELSE ""
HeadOf(x) == IF x.k = "l" /\ x.xs # <<>> THEN Atom(x.xs[1]) ELSE ""
L(xs) == [k |-> "l", xs |-> xs]
A(s) == [k |-> "a", s |-> s]

-----------------------------------------------------------------------------
(* Symbols. *)

Reserved == {"BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING", "_", "!", "as", "let", "exists", "forall",
             "match", "par",
             "assert", "check-sat", "check-sat-assuming", "declare-const", "declare-datatype", "declare-datatypes",
             "declare-fun", "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "echo",
             "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-proof",
             "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset", "reset-assertions",
             "set-info", "set-logic", "set-option"}
Predefined == {"true", "false", "not", "=>", "and", "or", "xor", "=", "distinct", "ite",
               "concat", "extract", "repeat", "zero_extend", "sign_extend", "rotate_left", "rotate_right",
               "bvnot", "bvneg", "bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvadd", "bvsub", "bvmul",
               "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvult", "bvule",
               "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "bvcomp", "bvnego", "bvuaddo", "bvsaddo",
               "bvumulo", "bvsmulo", "bvusubo", "bvssubo", "bvsdivo"}
LegalSymbol(n) ==
  \/ At(n, 1) = "|" /\ Len(n) > 2
  \/ /\ n # "" /\ At(n, 1) \in SymChar \ DigitChar
     /\ At(n, 1) \notin {"@", "."}              \* reserved for solvers
     /\ n \notin Reserved
Unquoted(n) == IF At(n, 1) = "|" THEN Slice(n, 2, Len(n)) ELSE n
FreshSymbol(n) == LegalSymbol(n) /\ Unquoted(n) \notin Predefined

\* Numerals.
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
HexDigits == Digits \o <<"a", "b", "c", "d", "e", "f">>
UpperHexDigits == Digits \o <<"A", "B", "C", "D", "E", "F">>
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + (CHOOSE d \in 0..9 : Digits[d + 1] = At(s, Len(s)))
IsNumeral(s) == s # "" /\ Len(s) < 5 /\ CharsOf(s) \subseteq DigitChar /\ (At(s, 1) = "0" => s = "0")

\* Sort of a sort expression, "" when it is none the rules need.
SortOf(x) ==
  IF Atom(x) = "Bool" THEN "B"
  ELSE IF x.k = "l" /\ Len(x.xs) = 3 /\ Atom(x.xs[1]) = "_" /\ Atom(x.xs[2]) = "BitVec" /\ IsNumeral(Atom(x.xs[3]))
          /\ Atom(x.xs[3]) # "0"
  THEN Atom(x.xs[3]) ELSE ""

-----------------------------------------------------------------------------
(* Sorts and values of formulas; env maps symbols to sorts or values.        *)
(* "!" is the sort of what is ill-sorted or undeclared, "?" of constructs    *)
(* that are legal but not modelled.                                         *)

BvFun2 == {"bvadd", "bvsub", "bvand", "bvor", "bvxor"}
BvFun1 == {"bvneg", "bvnot"}
BvMore == {"bvnand", "bvnor", "bvxnor", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr"}
Chainable == {"bvadd", "bvmul", "bvand", "bvor", "bvxor"}
BvOrder == {"bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}
Args(x) == Tail(x.xs)

IsWidth(s) == At(s, 1) \in DigitChar
HexDigit(c) == CHOOSE d \in 0..15 : HexDigits[d + 1] = c \/ UpperHexDigits[d + 1] = c
LiteralSort(s) ==
  LET ds == SubSeq(s, 3, Len(s)) IN
  IF Len(s) < 3 THEN "!"
  ELSE IF At(s, 2) = "x" /\ CharsOf(ds) \subseteq HexChar THEN ToString(4 * Len(ds))
  ELSE IF At(s, 2) = "b" /\ CharsOf(ds) \subseteq {"0", "1"} THEN ToString(Len(ds))
  ELSE "!"
RECURSIVE HexBits(_, _), BinBits(_, _)
HexBits(s, i) == IF i < 3 THEN <<>>
                 ELSE LET d == HexDigit(At(s, i)) IN <<d % 2, (d \div 2) % 2, (d \div 4) % 2, d \div 8>> \o HexBits(s, i - 1)
BinBits(s, i) == IF i < 3 THEN <<>> ELSE <<IF At(s, i) = "1" THEN 1 ELSE 0>> \o BinBits(s, i - 1)
LiteralValue(s) == BvOf(IF At(s, 2) = "x" THEN HexBits(s, Len(s)) ELSE BinBits(s, Len(s)))
\* (_ bvN w)
DecimalSort(x) ==
  LET n == IF Len(x.xs) = 3 THEN Atom(x.xs[2]) ELSE "" IN
  IF HasAt(n, 1, "bv") /\ Len(n) > 2 /\ CharsOf(SubSeq(n, 3, Len(n))) \subseteq DigitChar
     /\ IsNumeral(Atom(x.xs[3])) /\ Atom(x.xs[3]) # "0"
  THEN Atom(x.xs[3]) ELSE "!"
RECURSIVE DecimalFrom(_, _, _)
DecimalFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE DecimalFrom(s, i + 1, BvDigit(acc, 10, NatOf(At(s, i))))
DecimalValue(x) == LET w == NatOf(Atom(x.xs[3])) IN CutTo(DecimalFrom(Atom(x.xs[2]), 3, BvZero(Rounded(w))), w)

\* ((_ f i ..) a): is, the indices.
IndexedSort(f, is, as) ==
  IF Len(as) # 1 \/ ~IsWidth(as[1]) THEN "!"
  ELSE LET w == NatOf(as[1]) IN
    CASE f = "extract" -> IF Len(is) = 2 /\ is[1] < w /\ is[2] <= is[1] THEN ToString(is[1] - is[2] + 1) ELSE "!"
      [] f = "repeat" -> IF Len(is) = 1 /\ is[1] > 0 THEN ToString(is[1] * w) ELSE "!"
      [] f \in {"zero_extend", "sign_extend"} -> IF Len(is) = 1 THEN ToString(is[1] + w) ELSE "!"
      [] f \in {"rotate_left", "rotate_right"} -> IF Len(is) = 1 THEN as[1] ELSE "!"
      [] OTHER -> "!"
RECURSIVE BvRepeat(_, _)
BvRepeat(a, n) == IF n = 1 THEN a ELSE BvJoin(a, BvRepeat(a, n - 1))
IndexedValue(f, is, a) ==
  LET w == BitCount(a) IN
  CASE f = "extract" -> BvExtract(a, is[1], is[2])
    [] f = "repeat" -> BvRepeat(a, is[1])
    [] f = "zero_extend" -> FitTo(a, w + is[1], 0)
    [] f = "sign_extend" -> FitTo(a, w + is[1], TopBit(a))
    [] f = "rotate_left" -> BvTurn(a, is[1] % w)
    [] f = "rotate_right" -> BvTurn(a, w - (is[1] % w))
IsIndexed(x) == x.xs # <<>> /\ HeadOf(x.xs[1]) = "_"
Indices(x) == [i \in 1..(Len(x.xs[1].xs) - 2) |-> NatOf(Atom(x.xs[1].xs[i + 2]))]

\* (let ((n a) ..) b)
GoodLet(x) ==
  /\ Len(x.xs) = 3 /\ x.xs[2].k = "l" /\ x.xs[2].xs # <<>>
  /\ \A i \in 1..Len(x.xs[2].xs) : LET b == x.xs[2].xs[i] IN b.k = "l" /\ Len(b.xs) = 2 /\ LegalSymbol(Atom(b.xs[1]))
  /\ \A i, j \in 1..Len(x.xs[2].xs) : i # j => Atom(x.xs[2].xs[i].xs[1]) # Atom(x.xs[2].xs[j].xs[1])
Bound(x, env, F(_, _)) ==
  LET bs == x.xs[2].xs
      ns == {Atom(bs[i].xs[1]) : i \in 1..Len(bs)}
      At1(n) == CHOOSE i \in 1..Len(bs) : Atom(bs[i].xs[1]) = n
      new == TLCEval([n \in ns |-> F(bs[At1(n)].xs[2], env)])
  IN TLCEval([n \in ns \cup DOMAIN env |-> IF n \in ns THEN new[n] ELSE env[n]])

RECURSIVE SmtSort(_, _)
SmtSort(x, env) ==
  IF x.k = "a" THEN IF x.s \in DOMAIN env THEN env[x.s] ELSE IF x.s \in {"true", "false"} THEN "B"
                    ELSE IF At(x.s, 1) = "#" THEN LiteralSort(x.s) ELSE "!"
  ELSE IF x.xs = <<>> THEN "!"
  ELSE IF HeadOf(x) = "_" THEN DecimalSort(x)
  ELSE IF HeadOf(x) = "let" THEN IF GoodLet(x) THEN SmtSort(x.xs[3], Bound(x, env, LAMBDA y, e : SmtSort(y, e))) ELSE "!"
  ELSE IF HeadOf(x) = "!" THEN "?"
  ELSE
    LET f  == HeadOf(x)
        as == TLCEval([i \in 1..(Len(x.xs) - 1) |-> SmtSort(x.xs[i + 1], env)])
        n  == Len(as)
        AllAre(s) == \A i \in 1..n : as[i] = s
    IN IF \E i \in 1..n : as[i] = "!" THEN "!"
       ELSE IF \E i \in 1..n : as[i] = "?" THEN "?"
       ELSE IF f = "" THEN
         IF IsIndexed(x) /\ Len(x.xs[1].xs) > 2 /\ \A i \in 3..Len(x.xs[1].xs) : IsNumeral(Atom(x.xs[1].xs[i]))
         THEN IndexedSort(Atom(x.xs[1].xs[2]), Indices(x), as)
         ELSE IF HeadOf(x.xs[1]) = "as" THEN "?" ELSE "!"
       ELSE IF f \in BvFun2 \cup BvMore THEN IF (n = 2 \/ (n > 2 /\ f \in Chainable)) /\ IsWidth(as[1]) /\ AllAre(as[1]) THEN as[1] ELSE "!"
       ELSE IF f \in BvFun1 THEN IF n = 1 /\ IsWidth(as[1]) THEN as[1] ELSE "!"
       ELSE IF f \in BvOrder THEN IF n = 2 /\ IsWidth(as[1]) /\ AllAre(as[1]) THEN "B" ELSE "!"
       ELSE IF f = "bvcomp" THEN IF n = 2 /\ IsWidth(as[1]) /\ AllAre(as[1]) THEN "1" ELSE "!"
       ELSE IF f = "concat" THEN IF n = 2 /\ IsWidth(as[1]) /\ IsWidth(as[2]) THEN ToString(NatOf(as[1]) + NatOf(as[2])) ELSE "!"
       ELSE IF f = "ite" THEN IF n = 3 /\ as[1] = "B" /\ as[2] = as[3] THEN as[2] ELSE "!"
       ELSE IF f \in {"and", "or", "xor", "=>"} THEN IF n >= 2 /\ AllAre("B") THEN "B" ELSE "!"
       ELSE IF f = "not" THEN IF n = 1 /\ as[1] = "B" THEN "B" ELSE "!"
       ELSE IF f \in {"=", "distinct"} THEN IF n >= 2 /\ AllAre(as[1]) THEN "B" ELSE "!"
       ELSE IF f \in Predefined THEN "?" ELSE "!"

RECURSIVE FoldL(_, _, _)
FoldL(F(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldL(F, F(acc, Head(s)), Tail(s))
\* as, the arguments of f.
MoreValue(f, as) ==
  CASE f = "bvnand" -> Ever1(BvNot, Ever2(BvAnd, as[1], as[2]))
    [] f = "bvnor" -> Ever1(BvNot, Ever2(BvOr, as[1], as[2]))
    [] f = "bvxnor" -> Ever1(BvNot, Ever2(BvXor, as[1], as[2]))
    [] f = "bvmul" -> FoldL(LAMBDA p, q : Ever2(BvMul, p, q), as[1], Tail(as))
    [] f = "bvudiv" -> Ever2(BvUdiv, as[1], as[2])
    [] f = "bvurem" -> Ever2(BvUrem, as[1], as[2])
    [] f = "bvsdiv" -> Ever2S(BvSdiv, as[1], as[2])
    [] f = "bvsrem" -> Ever2S(BvSrem, as[1], as[2])
    [] f = "bvsmod" -> Ever2S(BvSmod, as[1], as[2])
    [] f = "bvshl" -> BvShl(as[1], as[2])
    [] f = "bvlshr" -> BvShr(as[1], as[2], 0)
    [] f = "bvashr" -> BvShr(as[1], as[2], TopBit(as[1]))
    [] f = "bvult" -> BvLess(as[1], as[2])
    [] f = "bvule" -> ~BvLess(as[2], as[1])
    [] f = "bvugt" -> BvLess(as[2], as[1])
    [] f = "bvuge" -> ~BvLess(as[1], as[2])
    [] f = "bvslt" -> BvLessS(as[1], as[2])
    [] f = "bvsle" -> ~BvLessS(as[2], as[1])
    [] f = "bvsgt" -> BvLessS(as[2], as[1])
    [] f = "bvsge" -> ~BvLessS(as[1], as[2])
    [] f = "bvcomp" -> <<0 - 1, <<IF as[1] = as[2] THEN 1 ELSE 0>>>>
    [] f = "concat" -> BvJoin(as[1], as[2])
RECURSIVE SmtValue(_, _)
SmtValue(x, env) ==
  IF x.k = "a" THEN IF x.s \in DOMAIN env THEN env[x.s] ELSE IF At(x.s, 1) = "#" THEN LiteralValue(x.s) ELSE x.s = "true"
  ELSE IF HeadOf(x) = "_" THEN DecimalValue(x)
  ELSE IF HeadOf(x) = "let" THEN SmtValue(x.xs[3], Bound(x, env, LAMBDA y, e : SmtValue(y, e)))
  ELSE IF HeadOf(x) = "ite" THEN IF SmtValue(x.xs[2], env) THEN SmtValue(x.xs[3], env) ELSE SmtValue(x.xs[4], env)
  ELSE IF HeadOf(x) = "" THEN IndexedValue(Atom(x.xs[1].xs[2]), Indices(x), SmtValue(x.xs[2], env))
  ELSE
    LET f  == HeadOf(x)
        as == TLCEval([i \in 1..(Len(x.xs) - 1) |-> SmtValue(x.xs[i + 1], env)])
        Fold(F(_, _)) == FoldL(LAMBDA p, q : Ever2(F, p, q), as[1], Tail(as))
    IN CASE f = "bvadd" -> Fold(BvAdd)
         [] f = "bvsub" -> Fold(BvSub)
         [] f = "bvand" -> Fold(BvAnd)
         [] f = "bvor" -> Fold(BvOr)
         [] f = "bvxor" -> Fold(BvXor)
         [] f = "bvneg" -> Ever1(BvNeg, as[1])
         [] f = "bvnot" -> Ever1(BvNot, as[1])
         [] f = "and" -> \A i \in 1..Len(as) : as[i]
         [] f = "or" -> \E i \in 1..Len(as) : as[i]
         [] f = "xor" -> FoldL(LAMBDA p, q : p # q, as[1], Tail(as))
         [] f = "=>" -> as[Len(as)] \/ \E i \in 1..(Len(as) - 1) : ~as[i]
         [] f = "not" -> ~as[1]
         [] f = "=" -> \A i \in 2..Len(as) : as[i] = as[1]
         [] f = "distinct" -> \A i, j \in 1..Len(as) : i # j => as[i] # as[j]
         [] OTHER -> MoreValue(f, as)
RECURSIVE SymbolsOf(_)
SymbolsOf(x) == IF x.k = "a" THEN {x.s} ELSE UNION {SymbolsOf(x.xs[i]) : i \in 1..Len(x.xs)}

-----------------------------------------------------------------------------
(* A script as a run of a solver session: every command is a step.           *)
(* State: [ph, d, e, f, defs]: phase, declared constants (in order) with     *)
(* their sorts, first complaint, asserted formula, definitions [n, ps, b].   *)

Fresh == [ph |-> "start", d |-> <<>>, e |-> "", f |-> A("true"), defs |-> <<>>]
Complain(st, e) == IF st.e = "" THEN [st EXCEPT !.e = e] ELSE st
SortEnv(d) == [n \in {d[i].n : i \in 1..Len(d)} |-> d[CHOOSE i \in 1..Len(d) : d[i].n = n].s]

\* x with definitions replaced by what they stand for.
RECURSIVE Unfold(_, _)
Unfold(x, defs) ==
  LET n == IF x.k = "a" THEN x.s ELSE HeadOf(x)
      at == {i \in 1..Len(defs) : defs[i].n = n}
      def == defs[CHOOSE i \in at : TRUE]
      xs == [i \in 1..Len(x.xs) |-> Unfold(x.xs[i], defs)]
  IN IF defs = <<>> THEN x
     ELSE IF x.k = "a" THEN IF at # {} /\ def.ps = <<>> THEN def.b ELSE x
     ELSE IF at = {} \/ Len(def.ps) # Len(x.xs) - 1 \/ def.ps = <<>> THEN L(xs)
     ELSE L(<<A("let"), L([i \in 1..Len(def.ps) |-> L(<<A(def.ps[i].n), xs[i + 1]>>)]), def.b>>)

Taken(st, n) == \/ \E i \in 1..Len(st.d) : Unquoted(st.d[i].n) = Unquoted(n)
                \/ \E i \in 1..Len(st.defs) : Unquoted(st.defs[i].n) = Unquoted(n)
Define(st, n, ps, sort, x) ==
  LET b == Unfold(x, st.defs)
      env == [m \in {ps[i].n : i \in 1..Len(ps)} \cup DOMAIN SortEnv(st.d) |->
               IF \E i \in 1..Len(ps) : ps[i].n = m THEN ps[CHOOSE i \in 1..Len(ps) : ps[i].n = m].s ELSE SortEnv(st.d)[m]]
  IN IF st.ph # "logic" THEN Complain(st, "definition out of place")
     ELSE IF ~FreshSymbol(n) \/ \E i \in 1..Len(ps) : ~LegalSymbol(ps[i].n) THEN Complain(st, "illegal symbol")
     ELSE IF Taken(st, n) THEN Complain(st, "declared twice")
     ELSE IF sort = "" \/ \E i \in 1..Len(ps) : ps[i].s = "" THEN Complain(st, "unknown sort")
     ELSE IF SmtSort(b, env) = "?" THEN Complain(st, "?")
     ELSE IF SmtSort(b, env) # sort THEN Complain(st, "ill-sorted or undeclared")
     ELSE [st EXCEPT !.defs = Append(@, [n |-> n, ps |-> ps, b |-> b])]

Declare(st, n, sort) ==
  IF st.ph # "logic" THEN Complain(st, "declaration out of place")
  ELSE IF ~FreshSymbol(n) THEN Complain(st, "illegal symbol")
  ELSE IF Taken(st, n) THEN Complain(st, "declared twice")
  ELSE IF sort = "" THEN Complain(st, "unknown sort")
  ELSE [st EXCEPT !.d = Append(@, [n |-> n, s |-> sort])]

Command(st, c) ==
  LET h == HeadOf(c)
      n == IF c.k = "l" THEN Len(c.xs) ELSE 0
  IN IF st.ph = "done" THEN Complain(st, "commands after exit")
     ELSE IF h \in {"set-info", "set-option"} THEN st
     ELSE IF h = "set-logic" THEN
       IF st.ph # "start" THEN Complain(st, "logic set twice or late")
       ELSE IF n # 2 \/ Atom(c.xs[2]) # "QF_BV" THEN Complain(st, "not QF_BV")
       ELSE [st EXCEPT !.ph = "logic"]
     ELSE IF h = "declare-const" /\ n = 3 THEN Declare(st, Atom(c.xs[2]), SortOf(c.xs[3]))
     ELSE IF h = "declare-fun" /\ n = 4 /\ c.xs[3] = L(<<>>) THEN Declare(st, Atom(c.xs[2]), SortOf(c.xs[4]))
     ELSE IF h = "define-fun" /\ n = 5 /\ c.xs[3].k = "l" /\ (\A i \in 1..Len(c.xs[3].xs) : c.xs[3].xs[i].k = "l" /\ Len(c.xs[3].xs[i].xs) = 2) THEN
       Define(st, Atom(c.xs[2]), [i \in 1..Len(c.xs[3].xs) |-> [n |-> Atom(c.xs[3].xs[i].xs[1]), s |-> SortOf(c.xs[3].xs[i].xs[2])]], SortOf(c.xs[4]), c.xs[5])
     ELSE IF h = "assert" /\ n = 2 THEN
       IF st.ph # "logic" THEN Complain(st, "assertion out of place")
       ELSE LET x == Unfold(c.xs[2], st.defs)
                s == SmtSort(x, SortEnv(st.d)) IN
            IF s = "?" THEN Complain(st, "?")
            ELSE IF s # "B" THEN Complain(st, "ill-sorted or undeclared")
            ELSE [st EXCEPT !.ph = "asserted", !.f = x]
     ELSE IF h = "check-sat" /\ n = 1 THEN
       IF st.ph # "asserted" THEN Complain(st, "check-sat out of place") ELSE [st EXCEPT !.ph = "checked"]
     ELSE IF h = "exit" /\ n = 1 THEN
       IF st.ph # "checked" THEN Complain(st, "exit out of place") ELSE [st EXCEPT !.ph = "done"]
     ELSE Complain(st, "unknown command")

RECURSIVE RunFrom(_, _)
RunFrom(st, cs) == IF cs = <<>> THEN st ELSE RunFrom(Command(st, Head(cs)), Tail(cs))
RunScript(cs) == RunFrom(Fresh, cs)

UsesAll(st) == \A i \in 1..Len(st.d) : st.d[i].n \in SymbolsOf(st.f)

\* Complaint about a script standing for rule r ("" when there is none).
Complaint(text, r) ==
  LET s == ReadScript(text)
      st == RunScript(s.cs)
  IN IF ~s.ok THEN "not a script"
     ELSE IF st.e # "" THEN st.e
     ELSE IF st.ph # "done" THEN "incomplete"
     ELSE IF ~UsesAll(st) THEN "unused constant"
     ELSE IF ~\E i \in 1..Len(s.comments) : Occurs(s.comments[i], 1, RuleText(r)) THEN "rule not quoted"
     ELSE ""

-----------------------------------------------------------------------------
(* What a script says about a rule.                                         *)

\* Ways in which the constants of the formula can stand for the values the
\* rule is about.  A constant named like a variable stands for that variable.
UsedIn(st) == {n \in {st.d[i].n : i \in 1..Len(st.d)} : n \in SymbolsOf(st.f)}
Readings(st, r) ==
  LET vs == RuleVars(r)
      ns == UsedIn(st)
      Fixed(n) == Unquoted(n) \in vs
      free  == {n \in ns : ~Fixed(n)}
      loose == vs \ {Unquoted(n) : n \in ns}
  IN {[n \in ns |-> IF Fixed(n) THEN Unquoted(n) ELSE p[n]] :
        p \in {q \in [free -> loose] : \A a, b \in free : a # b => q[a] # q[b]}}

\* With many placeholders there are too many readings to try.
ManyReadings(st, r) == Cardinality({n \in UsedIn(st) : Unquoted(n) \notin RuleVars(r)}) > 5

IsNeq(f) == (HeadOf(f) = "not" /\ Len(f.xs) = 2 /\ HeadOf(f.xs[2]) = "=" /\ Len(f.xs[2].xs) = 3)
            \/ (HeadOf(f) = "distinct" /\ Len(f.xs) = 3)
NeqSides(f) == IF HeadOf(f) = "distinct" THEN Args(f) ELSE Args(f.xs[2])

EnvOf(reading, vals) == [n \in DOMAIN reading |-> vals[reading[n]]]

\* Strong agreement: the formula compares the very values of the two sides.
SidesAgree(f, reading, r, vals) ==
  LET e == EnvOf(reading, vals)
      ab == NeqSides(f)
      a == SmtValue(ab[1], e)
      b == SmtValue(ab[2], e)
      s == Sides(r, vals)
  IN (a = s[1] /\ b = s[2]) \/ (a = s[2] /\ b = s[1])
\* Agreement: the formula is true exactly when the sides differ.
TruthAgrees(f, reading, r, vals) ==
  LET s == Sides(r, vals) IN SmtValue(f, EnvOf(reading, vals)) = (s[1] # s[2])

-----------------------------------------------------------------------------
(* One way of writing a script (the reference; real ones may differ).        *)

SmtName(v) == IF At(v, 1) = "_" THEN "$" \o v ELSE IF LegalSymbol(v) /\ v \notin Predefined THEN v ELSE "$" \o v
RECURSIVE TermText(_, _), TermsText(_, _)
TermsText(vs, k) ==
  IF vs = <<>> THEN [s |-> "", k |-> k]
  ELSE LET h == TermText(Head(vs), k)
           t == TermsText(Tail(vs), h.k)
       IN [s |-> " " \o h.s \o t.s, k |-> t.k]
FunName(f) == CASE f = "Add" -> "bvadd" [] f = "Sub" -> "bvsub" [] f = "And" -> "bvand" [] f = "Or" -> "bvor"
                [] f = "Xor" -> "bvxor" [] f = "Neg" -> "bvneg" [] f = "Com" -> "bvnot" [] f = "AndB" -> "and"
                [] f = "OrB" -> "or" [] f = "EqB" -> "=" [] f = "NeqB" -> "distinct" [] f = "Not" -> "not"
TermText(v, k) ==
  IF v.k = "v" THEN IF v.n = "_" THEN [s |-> SmtName("_" \o ToString(k)), k |-> k + 1] ELSE [s |-> SmtName(v.n), k |-> k]
  ELSE LET as == TermsText(v.a, k) IN [s |-> "(" \o FunName(OpInfo[v.op.n].f) \o as.s \o ")", k |-> as.k]
SortText(s) == IF s = "B" THEN "Bool" ELSE "(_ BitVec " \o s \o ")"
RECURSIVE DeclText(_, _)
DeclText(vs, s) == IF vs = {} THEN ""
                   ELSE LET v == CHOOSE x \in vs : TRUE
                        IN "(declare-const " \o SmtName(v) \o " " \o SortText(s) \o ")\n" \o DeclText(vs \ {v}, s)
ScriptText(r) ==
  LET m == TermText(r.m, 1) IN
  "(set-logic QF_BV)\n; " \o RuleText(r) \o "\n" \o DeclText(RuleVars(r), RuleSort(r))
  \o "(assert (not (= " \o m.s \o " " \o TermText(r.r, m.k).s \o ")))\n(check-sat)\n(exit)\n"
=============================================================================

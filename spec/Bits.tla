-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Two's-complement machine integers as little-endian sequences of bytes.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC

BvWidth(a) == 8 * Len(a)
BvZero(w) == [i \in 1..(w \div 8) |-> 0]
BvOnes(w) == [i \in 1..(w \div 8) |-> 255]
BvOne(w)  == [i \in 1..(w \div 8) |-> IF i = 1 THEN 1 ELSE 0]

BvNot(a)    == [i \in 1..Len(a) |-> 255 - a[i]]
BvAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
BvOr(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
BvXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

RECURSIVE BvAddFrom(_, _, _, _)
BvAddFrom(a, b, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + carry IN <<s % 256>> \o BvAddFrom(a, b, i + 1, s \div 256)
BvAdd(a, b) == BvAddFrom(a, b, 1, 0)
BvSub(a, b) == BvAddFrom(a, BvNot(b), 1, 1)
BvNeg(a)    == BvSub(BvZero(BvWidth(a)), a)

-----------------------------------------------------------------------------
(* The rest of QF_BV, on integers of any width: those whose width is no        *)
(* multiple of eight are <<-1, bits>>, lowest bit first.                      *)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Powers == <<1, 2, 4, 8, 16, 32, 64, 128>>

IsOdd(a) == a[1] < 0
BvBits(a) == IF IsOdd(a) THEN a[2] ELSE TLCEval([i \in 1..(8 * Len(a)) |-> (a[((i - 1) \div 8) + 1] \div Powers[((i - 1) % 8) + 1]) % 2])
BvOf(bits) ==
  LET bs == TLCEval(bits) IN
  IF Len(bs) % 8 # 0 THEN <<0 - 1, bs>>
  ELSE TLCEval([k \in 1..(Len(bs) \div 8) |->
         bs[8 * k - 7] + 2 * bs[8 * k - 6] + 4 * bs[8 * k - 5] + 8 * bs[8 * k - 4]
         + 16 * bs[8 * k - 3] + 32 * bs[8 * k - 2] + 64 * bs[8 * k - 1] + 128 * bs[8 * k]])
BitCount(a) == IF IsOdd(a) THEN Len(a[2]) ELSE 8 * Len(a)
TopBit(a) == LET bs == BvBits(a) IN bs[Len(bs)]

\* To a width of n bits: cut off, or filled up with bit b.
FitTo(a, n, b) == LET bs == BvBits(a) IN BvOf([i \in 1..n |-> IF i <= Len(bs) THEN bs[i] ELSE b])
Rounded(n) == 8 * ((n + 7) \div 8)
Whole(a, b) == IF IsOdd(a) THEN FitTo(a, Rounded(BitCount(a)), b) ELSE a
CutTo(a, n) == IF BitCount(a) = n THEN a ELSE FitTo(a, n, 0)

\* Bytewise functions, extended to every width.
Ever1(F(_), a) == IF IsOdd(a) THEN CutTo(F(Whole(a, 0)), BitCount(a)) ELSE F(a)
Ever2(F(_, _), a, b) == IF IsOdd(a) THEN CutTo(F(Whole(a, 0), Whole(b, 0)), BitCount(a)) ELSE F(a, b)
Ever2S(F(_, _), a, b) == IF IsOdd(a) THEN CutTo(F(Whole(a, TopBit(a)), Whole(b, TopBit(b))), BitCount(a)) ELSE F(a, b)

RECURSIVE BvMulByte(_, _, _, _), BvMulFrom(_, _, _)
BvMulByte(a, d, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET p == a[i] * d + carry IN <<p % 256>> \o BvMulByte(a, d, i + 1, p \div 256)
BvMulFrom(a, b, i) ==
  IF i > Len(b) THEN BvZero(BvWidth(a))
  ELSE LET p == BvMulByte(a, b[i], 1, 0)
       IN BvAdd(TLCEval([k \in 1..Len(a) |-> IF k < i THEN 0 ELSE p[k - i + 1]]), BvMulFrom(a, b, i + 1))
BvMul(a, b) == BvMulFrom(a, b, 1)

RECURSIVE BvLessFrom(_, _, _)
BvLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BvLessFrom(a, b, i - 1)
BvLess(a, b) == LET x == Whole(a, 0)  y == Whole(b, 0) IN BvLessFrom(x, y, Len(x))
BvLessS(a, b) == IF TopBit(a) # TopBit(b) THEN TopBit(a) = 1 ELSE BvLess(a, b)

\* <<quotient, remainder>>; bit i and those below are still to come.
RECURSIVE BvDivFrom(_, _, _, _, _)
BvDivFrom(as, b, i, q, r) ==
  IF i = 0 THEN <<BvOf(q), r>>
  ELSE LET r2 == TLCEval(BvAddFrom(r, r, 1, as[i]))
           fits == TLCEval(~BvLess(r2, b))
       IN BvDivFrom(as, b, i - 1, <<IF fits THEN 1 ELSE 0>> \o q, TLCEval(IF fits THEN BvSub(r2, b) ELSE r2))
BvDivRem(a, b) ==
  IF b = BvZero(BvWidth(b)) THEN <<BvOnes(BvWidth(a)), a>>
  ELSE LET d == BvDivFrom(BvBits(a), Append(b, 0), BvWidth(a), <<>>, BvZero(BvWidth(a) + 8))
       IN <<d[1], SubSeq(d[2], 1, Len(a))>>
BvUdiv(a, b) == BvDivRem(a, b)[1]
BvUrem(a, b) == BvDivRem(a, b)[2]
BvAbs(a) == IF TopBit(a) = 1 THEN BvNeg(a) ELSE a
BvSdiv(a, b) == LET q == BvUdiv(BvAbs(a), BvAbs(b)) IN IF TopBit(a) # TopBit(b) THEN BvNeg(q) ELSE q
BvSrem(a, b) == LET r == BvUrem(BvAbs(a), BvAbs(b)) IN IF TopBit(a) = 1 THEN BvNeg(r) ELSE r
BvSmod(a, b) == LET r == BvUrem(BvAbs(a), BvAbs(b))
                    zero == r = BvZero(BvWidth(a))
                IN IF zero THEN r
                   ELSE IF TopBit(a) = 0 THEN IF TopBit(b) = 0 THEN r ELSE BvAdd(r, b)
                   ELSE IF TopBit(b) = 0 THEN BvSub(b, r) ELSE BvNeg(r)

\* Shifts by an integer; v comes in.
RECURSIVE AmountFrom(_, _, _)
AmountFrom(bs, i, n) == IF i = 0 THEN 0
                        ELSE LET m == AmountFrom(bs, i - 1, n) IN
                             IF m >= n THEN n ELSE IF bs[i] = 0 THEN m ELSE IF i > 12 THEN n ELSE m + Pow2(i - 1)
Amount(b) == LET bs == BvBits(b) IN AmountFrom(bs, Len(bs), Len(bs))
BvShl(a, b) == LET bs == BvBits(a)  n == Amount(b) IN BvOf([i \in 1..Len(bs) |-> IF i > n THEN bs[i - n] ELSE 0])
BvShr(a, b, v) == LET bs == BvBits(a)  n == Amount(b) IN BvOf([i \in 1..Len(bs) |-> IF i + n <= Len(bs) THEN bs[i + n] ELSE v])
\* Turned by n bits to the left.
BvTurn(a, n) == LET bs == BvBits(a)  w == Len(bs) IN BvOf([i \in 1..w |-> bs[((i - 1 + w * (n + 1) - n) % w) + 1]])
BvJoin(a, b) == BvOf(BvBits(b) \o BvBits(a))
BvExtract(a, i, j) == BvOf(SubSeq(BvBits(a), j + 1, i + 1))

\* Digits to integers of w bits: one digit more, in base n.
BvDigit(a, n, d) == BvMulByte(a, n, 1, d)
=============================================================================

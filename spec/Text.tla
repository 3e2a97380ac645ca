-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters and substrings of rule texts.  TLC treats TLA+ strings as    *)
(* sequences of one-character strings for Len, SubSeq and \o.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

At(s, i)       == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE ""   \* i-th character, "" past the end
Slice(s, i, j) == IF j <= i THEN "" ELSE SubSeq(s, i, j - 1)   \* [i, j)

\* Stands in texts for what has no text.
Hole == "<?hole?>"

CharsOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

LowerCase == TLCEval(CharsOf("abcdefghijklmnopqrstuvwxyz"))
UpperCase == TLCEval(CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
DigitChar == TLCEval(CharsOf("0123456789"))
OctalChar == TLCEval(CharsOf("01234567"))
HexChar   == TLCEval(CharsOf("0123456789abcdefABCDEF"))
WordChar  == TLCEval(LowerCase \cup UpperCase \cup DigitChar \cup {"_"})
LetterChar == TLCEval(LowerCase \cup UpperCase \cup {"_"})
BlankChar == {" ", "\t", "\r"}
LayoutChar == {" ", "\t", "\r", "\n"}
Punct     == TLCEval(CharsOf("!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~"))
Ascii     == TLCEval(WordChar \cup LayoutChar \cup Punct)

(* Some other characters, by class.  Those beyond the basic plane are two
   positions of a string, the first of them in HighHalf. *)
Classes     == TLCEval(JsonDeserialize("chars.json"))
OneOf(q)    == {q[i] : i \in 1..Len(q)}
OtherLetter == TLCEval(OneOf(Classes.letters))
OtherDigit  == TLCEval(OneOf(Classes.digits))
NoGoChar    == TLCEval(OneOf(Classes.others))       \* neither letters nor digits
HighHalf    == TLCEval(OneOf(Classes.high))
NulChar     == Classes.nul
BomChar     == Classes.bom

\* The character at position i, and the position after it.
WholeAt(s, i) == IF At(s, i) \in HighHalf THEN SubSeq(s, i, IF i < Len(s) THEN i + 1 ELSE i) ELSE At(s, i)
NextPos(s, i) == i + (IF At(s, i) \in HighHalf THEN 2 ELSE 1)

\* Does s have the literal t at position i?
HasAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t

\* First position >= i whose character is not in the set C (Len+1 when none).
RECURSIVE SpanEnd(_, _, _)
SpanEnd(s, i, C) ==
  IF i <= Len(s) /\ At(s, i) \in C THEN SpanEnd(s, i + 1, C) ELSE i

\* First position >= i with character c (Len+1 when none).
RECURSIVE Find(_, _, _)
Find(s, i, c) ==
  IF i > Len(s) \/ At(s, i) = c THEN i ELSE Find(s, i + 1, c)

\* Does literal t occur in s at or after position i?
Occurs(s, i, t) == \E j \in i..(Len(s) - Len(t) + 1) : At(s, j) = At(t, 1) /\ HasAt(s, j, t)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

\* Concatenation of a sequence of strings with separator sep.
RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* Concatenation of a sequence of sequences.
RECURSIVE Flat(_)
RepSeq(s, n) == [i \in 1..(Len(s) * n) |-> s[((i - 1) % Len(s)) + 1]]
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================

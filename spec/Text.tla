-------------------------------- MODULE Text --------------------------------
(* Characters and text. Text is a sequence of Unicode code points. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Rx

World == JsonDeserialize(IOEnv.VP_WORLD)

-----------------------------------------------------------------------------
(* classes of characters *)
Zeros == World.uni.zeros
OtherN == World.uni.n
Letters == World.uni.l

AsciiDigit(c) == c \in 48..57
AsciiAlpha(c) == c \in 65..90 \/ c \in 97..122

(* the decimal digit a character of category Nd stands for, -1 for any other character *)
Decimal(c) ==
  IF c < 128 THEN (IF c \in 48..57 THEN c - 48 ELSE -1)
  ELSE LET z == SelectInSeq(Zeros, LAMBDA z0 : z0 <= c /\ c <= z0 + 9)
       IN IF z = 0 THEN -1 ELSE c - Zeros[z]
IsNd(c) == Decimal(c) >= 0
IsN(c) == IF c < 128 THEN c \in 48..57 ELSE InRanges(OtherN, c)
IsL(c) == IF c < 128 THEN AsciiAlpha(c) ELSE InRanges(Letters, c)

Plus == 43
FullWidthPlus == 65291
IsPlus(c) == c = 43 \/ c = 65291
Star == 42
Hash == 35

(* separators that may stand inside a number *)
IsPunct(c) ==
  \/ c = 45 \/ c = 120 \/ c \in 8208..8213 \/ c = 8722 \/ c = 12540
  \/ c \in 65293..65295 \/ c = 32 \/ c = 160 \/ c = 173 \/ c = 8203 \/ c = 8288
  \/ c = 12288 \/ c = 40 \/ c = 41 \/ c = 65288 \/ c = 65289 \/ c = 65339 \/ c = 65341
  \/ c = 46 \/ c = 91 \/ c = 93 \/ c = 47 \/ c = 126 \/ c = 8275 \/ c = 8764

(* The same in the patterns that ignore letter case: x also covers X. *)
IsPunctAnyCase(c) == IsPunct(c) \/ c = 88

(* letters that may stand in a number: the Latin alphabet in either case and the two
   characters that fold to a letter of it (long s, Kelvin sign) *)
IsVanityLetter(c) == AsciiAlpha(c) \/ c = 383 \/ c = 8490

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) ==
  IF c \in 65..90 THEN c + 32
  ELSE IF c = 383 THEN 115 ELSE IF c = 8490 THEN 107
  ELSE IF c \in 65313..65338 THEN c + 32      \* full-width Latin
  ELSE IF c \in 1040..1071 THEN c + 32        \* Cyrillic
  ELSE IF c = 211 THEN 243                    \* O with acute
  ELSE c

(* the key of the telephone keypad that carries a letter *)
Keypad == [c \in 65..90 |->
  CASE c <= 67 -> 50 [] c <= 70 -> 51 [] c <= 73 -> 52 [] c <= 76 -> 53
    [] c <= 79 -> 54 [] c <= 83 -> 55 [] c <= 86 -> 56 [] OTHER -> 57]

-----------------------------------------------------------------------------
(* text *)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* the first position at which p occurs in s, 0 if there is none *)
Find(s, p) ==
  LET F[i \in 1..(Len(s) + 1)] ==
        IF i + Len(p) - 1 > Len(s) THEN 0
        ELSE IF s[i] = p[1] /\ SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE F[i + 1]
  IN F[1]

FindChar(s, c) == SelectInSeq(s, LAMBDA x : x = c)
Filter(s, Test(_)) == SelectSeq(s, Test)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Rep(c, n) == [i \in 1..n |-> c]

(* the first position from which only characters satisfying Test follow *)
TailFrom(s, Test(_)) ==
  LET j == SelectLastInSeq(s, LAMBDA c : ~Test(c)) IN j + 1
(* the first position whose character does not satisfy Test, Len + 1 if there is none *)
HeadEnd(s, Test(_)) ==
  LET j == SelectInSeq(s, LAMBDA c : ~Test(c)) IN IF j = 0 THEN Len(s) + 1 ELSE j

RECURSIVE Replace(_, _, _)
Replace(s, p, w) ==
  LET i == Find(s, p)
  IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o w \o Replace(From(s, i + Len(p)), p, w)

ReplaceFirst(s, p, w) ==
  LET i == Find(s, p)
  IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o w \o From(s, i + Len(p))

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
IntDigits(n) == IF n < 0 THEN <<45>> \o NatDigits(-n) ELSE NatDigits(n)

RECURSIVE NatOf(_)
NatOf(s) == IF s = << >> THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48

(* a digit sequence without its leading zeros, one zero if nothing else is left *)
Canon(s) ==
  LET j == HeadEnd(s, LAMBDA c : c = 48)
  IN IF j > Len(s) THEN <<48>> ELSE From(s, j)

Printable(s) == [i \in 1..Len(s) |-> s[i]]

-----------------------------------------------------------------------------
(* normalisation *)
DigitsOnly(s) ==
  LET d == SelectSeq(s, IsNd) IN [i \in 1..Len(d) |-> 48 + Decimal(d[i])]

AlphaCount(s) == Len(SelectSeq(s, AsciiAlpha))

(* letters count as keypad digits only when there are at least three of them *)
KeyOf(c) == IF AsciiDigit(c) THEN c ELSE Keypad[Upper(c)]
LettersToDigits(s) ==
  LET d == SelectSeq(s, LAMBDA c : AsciiDigit(c) \/ AsciiAlpha(c))
  IN [i \in 1..Len(d) |-> KeyOf(d[i])]
Normalize(s) == IF AlphaCount(s) >= 3 THEN LettersToDigits(s) ELSE DigitsOnly(s)

ConvertAlpha(s) == [i \in 1..Len(s) |-> IF AsciiAlpha(s[i]) THEN Keypad[Upper(s[i])] ELSE s[i]]

Diallable(s) == SelectSeq(s, LAMBDA c : AsciiDigit(c) \/ c = 43 \/ c = 42 \/ c = 35)

(* a raw input reduced to letters (in upper case), digits and plain separators *)
GroupingSymbol(c) ==
  IF AsciiAlpha(c) THEN Upper(c)
  ELSE IF AsciiDigit(c) THEN c
  ELSE IF c \in {45, 65293, 8722} \cup 8208..8213 THEN 45
  ELSE IF c \in {47, 65295} THEN 47
  ELSE IF c \in {32, 12288, 8288} THEN 32
  ELSE IF c \in {46, 65294} THEN 46
  ELSE -1
Grouped(s) == SelectSeq([i \in 1..Len(s) |-> GroupingSymbol(s[i])], LAMBDA c : c # -1)
=============================================================================

------------------------------- MODULE Viable -------------------------------
(* Which text can be a phone number at all, and where its extension is. *)
EXTENDS Text

(* labels, in lower case *)
ExplicitLabels ==
  LET e == {<< >>, <<101>>}
      mid == {<< >>, <<101,110,115,105,111>>, <<101,110,115,105,111,769>>, <<101,110,115,105,243>>}
      n == {<< >>, <<110>>}
  IN {a \o <<120,116>> \o b \o c : a \in e, b \in mid, c \in n}                    \* (e)xt(ensi(o|ó))(n)
     \cup {a \o <<65368,65364>> \o c : a \in {<< >>, <<65349>>}, c \in {<< >>, <<65358>>}}  \* full width
     \cup {<<1076,1086,1073>>, <<97,110,101,120,111>>}                              \* доб, anexo
AmbiguousLabels ==
  {<<120>>, <<65368>>, <<35>>, <<65283>>, <<126>>, <<65374>>,                        \* x # ~
   <<105,110,116>>, <<65353,65358,65364>>}                                          \* int
RfcLabel == <<59,101,120,116,61>>                                                   \* ;ext=

SepComma(c) == c = 32 \/ c = 160 \/ c = 9 \/ c = 44
Sep(c) == c = 32 \/ c = 160 \/ c = 9
SepAfter(c) == SepComma(c) \/ c = 45
Dot(c) == c = 58 \/ c = 46 \/ c = 65294

LitAt(s, i, w) ==
  i + Len(w) - 1 <= Len(s) /\ \A j \in 1..Len(w) : Lower(s[i + j - 1]) = w[j]

(* positions reachable from the positions P by any number of characters of a class *)
RunEnd(s, i, Test(_)) ==
  IF i > Len(s) THEN i ELSE i - 1 + HeadEnd(From(s, i), Test)
Skip(s, P, Test(_)) == UNION {i..RunEnd(s, i, Test) : i \in P}
Lits(s, P, ws) == {i + Len(w) : <<i, w>> \in {x \in P \X ws : LitAt(s, x[1], x[2])}}
AfterLabel(s, P) ==
  Skip(s, P \cup {i + 1 : i \in {j \in P : j <= Len(s) /\ Dot(s[j])}}, SepAfter)

(* where the digits can begin when the notation begins at i *)
ViaRfc(s, i) == Lits(s, {i}, {RfcLabel})
ViaExplicit(s, i) == AfterLabel(s, Lits(s, Skip(s, {i}, SepComma), ExplicitLabels))
ViaAmbiguous(s, i) == AfterLabel(s, Lits(s, Skip(s, {i}, SepComma), AmbiguousLabels))
ViaAmerican(s, i) ==
  LET e == RunEnd(s, i, LAMBDA c : c = 45 \/ c = 32) IN (i + 1)..e
ViaAuto(s, i) == AfterLabel(s, Lits(s, Skip(s, {i}, Sep), {<<44,44>>, <<59>>}))
ViaCommas(s, i) ==
  LET p == Skip(s, {i}, Sep)
  IN AfterLabel(s, UNION {(j + 1)..RunEnd(s, j, LAMBDA c : c = 44) : j \in {k \in p : k <= Len(s) /\ s[k] = 44}})

NoExt == [starts |-> {}, digits |-> << >>]
(* all positions at which an extension in some notation begins that ends with the text,
   and its digits: they are always the digits at the end, before a possible # *)
Extensions(s) ==
  LET n == Len(s)
      hash == n > 0 /\ s[n] = 35
      de == IF hash THEN n - 1 ELSE n
      ds == TailFrom(UpTo(s, de), IsNd)
      len == de - ds + 1
      low == SelectLastInSeq(UpTo(s, ds - 1), IsNd) + 1
  IN IF len = 0 \/ len > 20 \/ ds = 1 THEN NoExt
     ELSE [digits |-> SubSeq(s, ds, de),
           starts |-> {i \in low..(ds - 1) :
              \/ ~hash /\ ds \in ViaRfc(s, i)
              \/ ds \in ViaExplicit(s, i)
              \/ len <= 15 /\ ds \in ViaAuto(s, i)
              \/ len <= 9 /\ (ds \in ViaAmbiguous(s, i) \/ ds \in ViaCommas(s, i))
              \/ len <= 6 /\ hash /\ ds \in ViaAmerican(s, i)}]

(* the lengths of the prefixes of s that are a number without extension *)
BaseEnds(s) ==
  LET Gap(c) == IsPunctAnyCase(c) \/ c = Star
      Body(c) == Gap(c) \/ IsNd(c) \/ IsVanityLetter(c)
      start == HeadEnd(s, IsPlus)
      D1 == RunEnd(s, start, Gap)
      D2 == RunEnd(s, D1 + 1, Gap)
      D3 == RunEnd(s, D2 + 1, Gap)
      Is(d) == d <= Len(s) /\ IsNd(s[d])
  IN (IF Is(D1) /\ Is(D2) /\ Is(D3) THEN D3..(RunEnd(s, D3 + 1, Body) - 1) ELSE {})
     \cup (IF Len(s) >= 2 /\ IsNd(s[1]) /\ IsNd(s[2]) THEN {2} ELSE {})

IsViable(s) ==
  LET b == BaseEnds(s)
  IN \/ Len(s) \in b
     \/ /\ b # {}
        /\ LET x == Extensions(s).starts IN \E p \in b : p + 1 \in x

(* the number without its extension, and the extension as typed ("" for none) *)
StripExtension(s) ==
  LET x == Extensions(s)
  IN IF x.starts = {} THEN [n |-> s, has |-> FALSE, ext |-> << >>]
     ELSE LET i == Min(x.starts)
          IN IF IsViable(UpTo(s, i - 1)) THEN [n |-> UpTo(s, i - 1), has |-> TRUE, ext |-> x.digits]
             ELSE [n |-> s, has |-> FALSE, ext |-> << >>]

IsAlphaNumber(s) == IsViable(s) /\ AlphaCount(StripExtension(s).n) >= 3

-----------------------------------------------------------------------------
(* the part of a text that may be a number *)
TelPrefix == <<116,101,108,58>>
PhoneContext == <<59,112,104,111,110,101,45,99,111,110,116,101,120,116,61>>
Isub == <<59,105,115,117,98,61>>
Semicolon == 59

(* ".../ x..." introduces a second number *)
SecondAt(s, i) ==   \* s[i] is a slash; is it followed by blanks and an x
  LET j == RunEnd(s, i + 1, LAMBDA c : c = 32) IN j <= Len(s) /\ s[j] = 120
UpToSecondNumber(s) ==
  LET at == {i \in 1..Len(s) : (s[i] = 47 \/ s[i] = 92) /\ SecondAt(s, i)}
  IN IF at = {} THEN s
     ELSE \* the first line that has one, up to the last one on that line
       LET first == Min(at)
           ls == SelectLastInSeq(UpTo(s, first), LAMBDA c : c = 10) + 1
           le == LET e == SelectInSeq(From(s, ls), LAMBDA c : c = 10)
                 IN IF e = 0 THEN Len(s) ELSE ls + e - 2
           last == CHOOSE x \in at : x <= le /\ \A y \in at : y <= le => y <= x
       IN SubSeq(s, ls, last - 1)

ExtractPossible(s) ==
  LET i == SelectInSeq(s, LAMBDA c : IsPlus(c) \/ IsNd(c))
  IN IF i = 0 THEN << >>
     ELSE LET e == SelectLastInSeq(s, LAMBDA c : IsN(c) \/ IsL(c) \/ c = Hash)
          IN IF e < i THEN << >> ELSE UpToSecondNumber(SubSeq(s, i, e))

AlNum(c) == AsciiAlpha(c) \/ IsNd(c)
Visual(c) == c = 45 \/ c = 46 \/ c = 40 \/ c = 41
GlobalContext(c) ==
  /\ Len(c) >= 2 /\ c[1] = Plus
  /\ \A i \in 2..Len(c) : IsNd(c[i]) \/ Visual(c[i])
  /\ \E i \in 2..Len(c) : IsNd(c[i])
Label(l) ==
  /\ l # << >> /\ AlNum(l[1]) /\ AlNum(l[Len(l)])
  /\ \A i \in 1..Len(l) : AlNum(l[i]) \/ l[i] = 45
RECURSIVE Split(_, _)
Split(s, c) ==
  LET i == FindChar(s, c)
  IN IF i = 0 THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o Split(From(s, i + 1), c)
DomainName(c) ==
  LET t == IF c # << >> /\ c[Len(c)] = 46 THEN UpTo(c, Len(c) - 1) ELSE c
      ls == Split(t, 46)
  IN /\ \A i \in 1..Len(ls) : Label(ls[i])
     /\ AsciiAlpha(ls[Len(ls)][1])
ValidContext(c) == c # << >> /\ (GlobalContext(c) \/ DomainName(c))

NotText == <<-1>>
(* the text of the number itself; NotText when the phone-context is not one *)
NumberText(s) ==
  LET k == Find(s, PhoneContext)
      base ==
        IF k = 0 THEN ExtractPossible(s)
        ELSE LET rest == From(s, k + Len(PhoneContext))
                 semi == FindChar(rest, Semicolon)
                 ctx == IF semi = 0 THEN rest ELSE UpTo(rest, semi - 1)
                 head == UpTo(s, k - 1)
                 tel == Find(head, TelPrefix)
                 body == IF tel = 0 THEN head ELSE From(head, tel + Len(TelPrefix))
             IN IF ~ValidContext(ctx) THEN NotText
                ELSE (IF ctx[1] = Plus THEN ctx ELSE << >>) \o body
  IN IF base = NotText THEN NotText
     ELSE LET i == Find(base, Isub) IN IF i = 0 THEN base ELSE UpTo(base, i - 1)
=============================================================================

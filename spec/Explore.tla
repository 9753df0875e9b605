------------------------------- MODULE Explore -------------------------------
(* A caller who types. Each step adds a token (a digit, a prefix, a label, ...) to what
   has been typed; everything that can be typed in at most cs.most steps is a state. In
   every state the laws of the property hold of the specification, and the calls the
   caller could make with what is typed are emitted, to be made on the code.          *)
EXTENDS Ops

Given == JsonDeserialize(IOEnv.VP_EXPLORE)
Prop == Given.prop
Cases == Given.cases

VARIABLES case, arg, typed      \* which case, its other arguments, indices of the tokens typed

cs == Cases[case]
a == cs.args[arg]
text == cs.start \o FoldLeft(LAMBDA t, i : t \o cs.toks[i], << >>, typed) \o cs.rest

Init == /\ case \in 1..Len(Cases)
        /\ arg \in 1..Len(Cases[case].args)
        /\ typed = << >>
Next == /\ Len(typed) < cs.most
        /\ \E i \in 1..Len(cs.toks) : typed' = Append(typed, i)
        /\ UNCHANGED <<case, arg>>
Spec == Init /\ [][Next]_<<case, arg, typed>>

-----------------------------------------------------------------------------
(* the number whose national significant number is typed *)
Dialled(cc, w) ==
  LET z == LeadingZeros(w)
  IN [Blank EXCEPT !.cc = cc, !.nn = Canon(w), !.ilz = z > 0, !.nlz = IF z > 1 THEN z ELSE 1]
WithX(n, x) == IF x = << >> THEN n ELSE [n EXCEPT !.hext = TRUE, !.ext = x]
number == WithX(Dialled(a.cc, text), a.x)
(* a number that says it was read from what is typed *)
Claimed == [a.m EXCEPT !.hraw = TRUE, !.raw = text]
Region == a.r

Call(op, more) == << [op |-> op, j |-> Prop] @@ more >>
Num == [n |-> number]
Typed == [s |-> text, r |-> a.r]

TextCalls ==
  Call("origchain", Typed @@ [r2 |-> a.r2]) \o Call("alphachain", Typed @@ [r2 |-> a.r2]) \o Call("possiblestr", Typed) \o Call("keep2", Typed)
  \o Call("alpha", [s |-> text]) \o Call("convert", [s |-> text]) \o Call("match2", [s |-> text, s2 |-> a.s2]) \o Call("match1", [n |-> a.m, s |-> text])
Calls ==
  CASE Prop = "C03" -> IF cs.raw THEN Call("original", [n |-> Claimed, r |-> a.r]) \o Call("keepalpha", [n |-> Claimed, r |-> a.r]) ELSE TextCalls
    [] Prop = "C11" /\ cs.raw -> Call("original", [n |-> Claimed, r |-> a.r])
    [] Prop = "C19" /\ cs.raw -> Call("keepalpha", [n |-> Claimed, r |-> a.r])
    [] Prop = "C14" -> Call("parse", Typed) \o Call("alpha", [s |-> text]) \o Call("convert", [s |-> text])
    [] Prop \in {"C02", "C16"} \/ (Prop = "C13" /\ ~cs.pair) -> Call("parse", Typed)
    [] Prop = "C13" -> Call("ext", [s |-> cs.base, x |-> text, r |-> a.r])
    [] Prop = "C17" -> Call("keep2", Typed)
    [] Prop = "C11" -> Call("origchain", Typed @@ [r2 |-> a.r2])
    [] Prop = "C19" /\ cs.pair -> Call("alphachain", Typed @@ [r2 |-> a.r2])
    [] Prop = "C09" /\ cs.pair -> Call("match2", [s |-> text, s2 |-> a.s2]) \o Call("match1", [n |-> a.m, s |-> text])
    [] text = << >> -> << >>
    [] Prop = "C09" -> Call("matchboth", Num @@ [m |-> a.m])
    [] Prop = "C01" -> Call("chain", Num @@ [f |-> a.f, r2 |-> a.r, from |-> "n"])
    [] Prop = "C04" -> Call("valid", Num) \o Call("validfor", Num @@ [r |-> a.r])
    [] Prop = "C05" -> Call("type", Num) \o Call("intl", Num)
    [] Prop = "C06" -> Call("region", Num)
    [] Prop = "C07" -> Call("possible", Num) \o Call("reason", Num) \o Call("reasontype", Num @@ [t |-> a.t])
    [] Prop = "C08" -> Call("format", Num @@ [f |-> a.f]) \o Call("nsn", Num)
    [] Prop = "C10" -> Call("ooc", Num @@ [r |-> a.r]) \o Call("mobile", Num @@ [r |-> a.r, b |-> TRUE]) \o Call("mobile", Num @@ [r |-> a.r, b |-> FALSE])
    [] Prop = "C12" -> Call("truncate", Num)
    [] Prop = "C18" -> Call("arealen", Num) \o Call("ndclen", Num) \o Call("geo", Num)
    [] Prop = "C19" -> Call("carrier", Num @@ [c |-> a.c]) \o Call("prefcarrier", [n |-> [number EXCEPT !.hpdcc = TRUE, !.pdcc = <<49>>], c |-> a.c])
    [] OTHER -> << >>

Emit == \A i \in 1..Len(Calls) : PrintT("CALL " \o ToJson(Calls[i]))

-----------------------------------------------------------------------------
(* Laws. They are consequences of the specification that say in other words what the
   property promises; they hold whatever the plans are (where they need a premise about
   the plans, it is stated).                                                           *)
Same(x, y) ==
  /\ x.k = y.k
  /\ IF x.k = "num"
     THEN [x.v EXCEPT !.hraw = FALSE, !.raw = << >>, !.src = "NONE", !.hpdcc = FALSE, !.pdcc = << >>]
        = [y.v EXCEPT !.hraw = FALSE, !.raw = << >>, !.src = "NONE", !.hpdcc = FALSE, !.pdcc = << >>]
     ELSE x.v = y.v

NotNumber(x) == x.k = "err" /\ x.v = "NotANumber"
ParseLaws ==
  LET p == ParseNumber(text, a.r)
      z == ParseNumber(text, Unknown)
      w == NumberText(text)
  IN \* the number read is one: a code in use, 2 to 17 digits, no needless zeros
     /\ p.k = "num" =>
          /\ p.v.cc \in Codes
          /\ Len(Nsn(p.v)) \in 2..17
          /\ p.v.ilz \/ p.v.nn[1] # 48 \/ p.v.nn = <<48>>
          /\ ~p.v.hraw /\ p.v.src = "NONE" /\ ~p.v.hpdcc
     /\ p.k = "err" => p.v \in {"NotANumber", "InvalidCountryCode", "TooShortAfterIdd", "TooShortNsn", "TooLongNsn"}
     \* what can be read without any region is read the same with every region
     /\ z.k = "num" => Same(p, z)
     \* without a region only international numbers can be read
     /\ z.k = "num" => \E i \in 1..Len(w) : IsPlus(w[i])
     \* being a number at all has nothing to do with the region
     /\ NotNumber(p) <=> NotNumber(z)
     \* keeping the input adds information only
     /\ Same(ParseKeeping(text, a.r), p)

KeepLaws ==
  LET q == ParseKeeping(text, a.r)
  IN q.k = "num" =>
       /\ q.v.raw = text /\ q.v.hraw
       /\ q.v.src \in {"PLUS", "IDD", "NOPLUS", "DEFAULT"}
       /\ (q.v.src = "DEFAULT" \/ q.v.src = "NOPLUS") => IsSupported(a.r) /\ q.v.cc = MD[RegionIdx[a.r]].cc
       /\ q.v.src = "IDD" => IsSupported(a.r)
       /\ q.v.hpdcc => \A i \in 1..Len(q.v.pdcc) : AsciiDigit(q.v.pdcc[i])

(* whatever the number claims to be read from, something is written: what it claims, or
   what is dialled like that, or the number *)
ClaimedLaws ==
  LET t == Original(Claimed, a.r)
  IN text # << >> =>
       /\ t # << >>
       /\ t = text \/ Diallable(t) = Diallable(text) \/ \E f \in {"NATL", "INTL"} : Formatted(a.m, f) = t
OriginalLaws ==
  LET q == ParseKeeping(text, a.r)
      t == Original(q.v, a.r2)
  IN q.k = "num" => \/ t = text
                    \/ /\ Diallable(t) = Diallable(text)
                       /\ (q.v.src = "PLUS" => t[1] = Plus)

(* digits and pluses in full width are the same to parsing *)
Wide(s) == [i \in 1..Len(s) |-> IF AsciiDigit(s[i]) THEN s[i] + 65248 ELSE IF s[i] = Plus THEN FullWidthPlus ELSE s[i]]
Arabic(s) == [i \in 1..Len(s) |-> IF AsciiDigit(s[i]) THEN s[i] + 1584 ELSE s[i]]
PlainDigits(x) == IF x.k = "num" THEN [x EXCEPT !.v.ext = DigitsOnly(x.v.ext)] ELSE x
AlikeLaws ==
  LET p == PlainDigits(ParseNumber(text, a.r))
  IN /\ AlphaCount(text) = 0 => Same(p, PlainDigits(ParseNumber(Wide(text), a.r))) /\ Same(p, PlainDigits(ParseNumber(Arabic(text), a.r)))
     /\ Same(p, PlainDigits(ParseNumber(<<33>> \o text, a.r)))              \* ! cannot belong to a number
     /\ Find(text, PhoneContext) = 0 => Same(p, PlainDigits(ParseNumber(text \o <<33>>, a.r)))
     /\ Len(ConvertAlpha(text)) = Len(text) /\ AlphaCount(ConvertAlpha(text)) = 0
     /\ IsAlphaNumber(text) => AlphaCount(text) >= 3

SameNumbers(m, n) == m.cc = n.cc /\ m.nn = n.nn /\ m.ilz = n.ilz /\ m.nlz = n.nlz
(* an extension: the digits that follow its label, and the number stands alone *)
ExtLaws ==
  LET b == ParseNumber(cs.base, a.r)
      f == ParseNumber(cs.base \o text, a.r)
      st == StripExtension(NumberText(cs.base \o text))
  IN /\ f.k = "num" /\ f.v.hext => Len(f.v.ext) \in 1..20
     /\ (cs.pair /\ f.k = "num" /\ f.v.hext /\ b.k = "num" /\ st.n = NumberText(cs.base)) => SameNumbers(b.v, f.v)

ContextLaws ==
  LET i == Find(text, PhoneContext)
      p == ParseNumber(text, a.r)
  IN \* a subaddress is not part of the number
     /\ (i = 0 /\ Find(text, Isub) = 0 /\ text # << >> /\ IsNd(text[Len(text)]))
          => Same(p, ParseNumber(text \o Isub \o <<49, 50>>, a.r))
     \* with a global context the region matters only where it does for a plus
     /\ p.k = "num" => Len(Nsn(p.v)) \in 2..17

KeepAlphaLaws ==
  LET q == ParseKeeping(text, a.r)
      t == KeepingAlpha(q.v, a.r2)
  IN q.k = "num" => \A i \in 1..Len(t) : t[i] \notin 97..122 \/ ~ (\E j \in 1..Len(text) : text[j] = t[i])

CompareLaws ==
  IF cs.pair
  THEN LET x == CompareTexts(text, a.s2)
           y == CompareTexts(a.s2, text)
       IN x.k = "enum" /\ y.k = "enum" => (x.v = "NoMatch") = (y.v = "NoMatch")
  ELSE /\ Compare(number, a.m) = Compare(a.m, number)
       /\ Compare(number, number) = (IF number.cc = 0 THEN "NsnMatch" ELSE "ExactMatch")
       /\ (Compare(number, a.m) = "ExactMatch") => number.nn = a.m.nn /\ number.cc = a.m.cc

-----------------------------------------------------------------------------
(* numbers *)
m1 == MdOf(number.cc, RegionOf(number))
TypeSet(md, nsn) == {t \in TypeNames \ {"Unknown", "FixedLineOrMobile"} : MatchesDesc(md[FieldOf[t]], nsn)}

ValidLaws ==
  /\ IsValid(number) => /\ number.cc \in Codes
                        /\ RegionOf(number) # Unknown
                        /\ TypeOf(number) # "Unknown"
  /\ ~IsValid(number) => TypeOf(number) = "Unknown"
  /\ IsValidFor(number, a.r) => /\ number.cc \in Codes
                                /\ a.r \in ToSet(CodeRegions[number.cc])
  \* what is valid is possible, if the plan it belongs to is the one of its code
  /\ (IsValid(number) /\ RegionOf(number) = MainRegion(number.cc) /\ MD[m1].general.l # << >> /\ -1 \notin ToSet(MD[m1].general.l))
       => IsPossible(number)

TypeLaws ==
  LET S == TypeSet(MD[m1], Nsn(number))
      t == TypeOf(number)
  IN IF m1 = 0 THEN t = "Unknown" ELSE
       /\ S = {} => t = "Unknown"
       /\ t \notin {"Unknown", "FixedLineOrMobile"} => t \in S
       /\ t = "FixedLineOrMobile" => "FixedLine" \in S
       /\ t \in {"FixedLine", "Mobile", "FixedLineOrMobile"} => S \subseteq {"FixedLine", "Mobile"}
       /\ "PremiumRate" \in S => t \in {"PremiumRate", "Unknown"}

RegionLaws ==
  LET r == RegionOf(number)
  IN /\ r \in (IF number.cc \in Codes THEN ToSet(CodeRegions[number.cc]) ELSE {}) \cup {Unknown}
     /\ number.cc \in Codes /\ Len(CodeRegions[number.cc]) = 1 => r = CodeRegions[number.cc][1]
     /\ number.cc \in Codes => MainRegion(number.cc) = CodeRegions[number.cc][1]

LengthLaws ==
  LET like == Dialled(a.cc, [i \in 1..Len(text) |-> IF i = 1 THEN 57 ELSE 48])
      longer == Dialled(a.cc, text \o <<49>>)
  IN /\ Reason(number, a.t) = Reason(like, a.t)
     /\ (Reason(number, a.t) = "TooLong" => Reason(longer, a.t) \in {"TooLong", "IsPossibleLocalOnly"})
     /\ (Reason(longer, a.t) = "TooShort" => Reason(number, a.t) \in {"TooShort", "IsPossibleLocalOnly"})
     /\ (Reason(number, a.t) = "InvalidCountryCode" <=> number.cc \notin Codes)

FormatLaws ==
  LET e == Formatted(number, "E164")
      r == Formatted(number, "RFC")
  IN /\ e = <<Plus>> \o IntDigits(number.cc) \o Nsn(number)
     /\ number.cc \in Codes => StartsWith(r, Tel \o <<Plus>> \o IntDigits(number.cc) \o <<45>>)
     /\ number.cc \in Codes => StartsWith(Formatted(number, "INTL"), <<Plus>> \o IntDigits(number.cc) \o <<32>>)

DiallingLaws ==
  LET t == ForMobile(number, a.r, FALSE)
      o == OutOfCountry(number, a.r)
  IN /\ \A i \in 1..Len(t) : AsciiDigit(t[i]) \/ t[i] \in {Plus, Star, Hash}
     /\ (a.r # MainRegion(number.cc) /\ ~CanBeIntlDialled(number)) => t = << >>
     /\ (IsSupported(a.r) /\ number.cc # 1 /\ MD[RegionIdx[a.r]].cc = number.cc) => o = Formatted(number, "NATL")
     /\ ~IsSupported(a.r) => o = Formatted(number, "INTL")

TruncateLaws ==
  LET t == Truncated(number)
      nsn == Nsn(number)
      \* the prefixes that keep the leading zeros and at least one digit
      zs == IF number.ilz THEN number.nlz ELSE 0
      Cut(k) == [number EXCEPT !.nn = UpTo(number.nn, k)]
      ks == {k \in 1..Len(number.nn) : IsValid(Cut(k)) /\ \A i \in k..(Len(number.nn) - 1) : Reason(Cut(i), "Unknown") # "TooShort"}
  IN /\ ks = {} => t = [ok |-> FALSE, n |-> number]
     /\ ks # {} => t = [ok |-> TRUE, n |-> Cut(MaxOf(ks))]
     /\ t.ok => IsValid(t.n) /\ Truncated(t.n) = t

AreaLaws ==
  LET plain == WithX([number EXCEPT !.hext = FALSE, !.ext = << >>], << >>)
  IN /\ AreaLength(number) \in {0, NdcLength(number)}
     /\ NdcLength(number) = NdcLength(plain) /\ AreaLength(number) = AreaLength(plain)
     /\ AreaLength(number) > 0 => IsGeographical(TypeOf(number), number.cc)

CarrierLaws ==
  /\ WithCarrier(number, << >>) = Formatted(number, "NATL")
  /\ WithPreferredCarrier(number, a.c) = WithCarrier(number, a.c)
  /\ KeepingAlpha(number, Unknown) = OutOfCountry(number, Unknown)

RoundTrip ==
  LET e == ParseNumber(Formatted(number, "E164"), a.r)
  IN \* E.164 read with no region: whatever the plan takes off, it takes off with every region
     e.k = "num" => Same(e, ParseNumber(Formatted(number, "E164"), Unknown))

Laws ==
  CASE Prop = "C02" -> ParseLaws
    [] Prop = "C17" -> ParseLaws /\ KeepLaws
    [] Prop = "C11" /\ cs.raw -> ClaimedLaws
    [] Prop = "C11" -> OriginalLaws
    [] Prop = "C19" /\ cs.raw -> TRUE
    [] Prop = "C03" -> Result([op |-> "parse", s |-> text, r |-> a.r]).k \in {"num", "err"}
    [] Prop = "C14" -> ParseLaws /\ AlikeLaws
    [] Prop = "C13" -> ExtLaws
    [] Prop = "C16" -> ContextLaws
    [] Prop = "C09" /\ cs.pair -> CompareLaws
    [] Prop = "C19" /\ cs.pair -> KeepAlphaLaws
    [] text = << >> -> TRUE
    [] Prop = "C09" -> CompareLaws
    [] Prop = "C01" -> RoundTrip
    [] Prop = "C04" -> ValidLaws
    [] Prop = "C05" -> TypeLaws
    [] Prop = "C06" -> RegionLaws
    [] Prop = "C07" -> LengthLaws
    [] Prop = "C08" -> FormatLaws
    [] Prop = "C10" -> DiallingLaws
    [] Prop = "C12" -> TruncateLaws
    [] Prop = "C18" -> AreaLaws
    [] Prop = "C19" -> CarrierLaws
    [] OTHER -> TRUE
=============================================================================

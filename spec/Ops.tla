--------------------------------- MODULE Ops ---------------------------------
(* The other operations, and the meaning of every operation of the API. *)
EXTENDS Format

(* comparing *)
Core(n) == LET has == n.hext /\ n.ext # << >>
           IN [cc |-> n.cc, nn |-> n.nn, ext |-> IF has THEN n.ext ELSE << >>,
               ilz |-> n.ilz, nlz |-> IF n.ilz THEN n.nlz ELSE 1]
Suffix(a, b) == EndsWith(a.nn, b.nn) \/ EndsWith(b.nn, a.nn)
Compare(a, b) ==
  LET x == Core(a)
      y == Core(b)
      free(c) == [c EXCEPT !.cc = 0]
  IN IF x.ext # << >> /\ y.ext # << >> /\ x.ext # y.ext THEN "NoMatch"
     ELSE IF x.cc # 0 /\ y.cc # 0 THEN
       (IF x = y THEN "ExactMatch"
        ELSE IF x.cc = y.cc /\ Suffix(x, y) THEN "ShortNsnMatch" ELSE "NoMatch")
     ELSE IF free(x) = free(y) THEN "NsnMatch"
     ELSE IF Suffix(x, y) THEN "ShortNsnMatch" ELSE "NoMatch"

Enum(v) == [k |-> "enum", v |-> v]

CompareText(n, s) ==
  LET p == ParseNumber(s, Unknown)
      r == MainRegion(n.cc)
      q == IF r = Unknown THEN Parsed(s, Unknown, FALSE, FALSE) ELSE ParseNumber(s, r)
      c == Compare(n, q.v)
  IN IF p.k = "num" THEN Enum(Compare(n, p.v))
     ELSE IF p.v # "InvalidCountryCode" THEN p
     ELSE IF q.k # "num" THEN q
     ELSE Enum(IF r # Unknown /\ c = "ExactMatch" THEN "NsnMatch" ELSE c)

CompareTexts(s1, s2) ==
  LET a == ParseNumber(s1, Unknown)
      b == ParseNumber(s2, Unknown)
      a2 == Parsed(s1, Unknown, FALSE, FALSE)
      b2 == Parsed(s2, Unknown, FALSE, FALSE)
  IN IF a.k = "num" THEN CompareText(a.v, s2)
     ELSE IF a.v # "InvalidCountryCode" THEN a
     ELSE IF b.k = "num" THEN CompareText(b.v, s1)
     ELSE IF b.v # "InvalidCountryCode" THEN b
     ELSE IF a2.k # "num" THEN a2 ELSE IF b2.k # "num" THEN b2
     ELSE Enum(Compare(a2.v, b2.v))

-----------------------------------------------------------------------------
(* truncating: digits are dropped from the end of the national number *)
RECURSIVE Shorter(_)
Shorter(n) ==
  LET s == IF Len(n.nn) = 1 THEN <<48>> ELSE UpTo(n.nn, Len(n.nn) - 1)
      m == [n EXCEPT !.nn = s]
  IN IF s = <<48>> \/ Reason(m, "Unknown") = "TooShort" THEN [ok |-> FALSE, n |-> n]
     ELSE IF IsValid(m) THEN [ok |-> TRUE, n |-> m]
     ELSE Shorter(m)
Truncated(n) ==
  IF IsValid(n) THEN [ok |-> TRUE, n |-> n]
  ELSE LET r == Shorter(n) IN IF r.ok THEN r ELSE [ok |-> FALSE, n |-> n]

-----------------------------------------------------------------------------
(* area codes *)
GeoMobile == {52, 54, 55, 62, 86}
IsGeographical(type, cc) ==
  type \in {"FixedLine", "FixedLineOrMobile"} \/ (type = "Mobile" /\ cc \in GeoMobile)

(* lengths of the runs of digits in a text, at most three *)
RECURSIVE Runs(_, _)
Runs(s, most) ==
  LET i == SelectInSeq(s, AsciiDigit)
  IN IF most = 0 \/ i = 0 THEN << >>
     ELSE LET t == From(s, i)
              e == HeadEnd(t, AsciiDigit)
          IN <<e - 1>> \o Runs(From(t, e), most - 1)

NdcLength(n) ==
  LET m == [n EXCEPT !.hext = FALSE, !.ext = << >>]
      g == Runs(Formatted(m, "INTL"), 3)
  IN IF Len(g) < 3 THEN 0
     ELSE IF n.cc = 54 /\ TypeOf(n) = "Mobile" THEN g[3] + 1
     ELSE g[2]

AreaLength(n) ==
  LET m == MdOfRegion(RegionOf(n))
      type == TypeOf(n)
  IN IF m = 0 THEN 0
     ELSE IF MD[m].np = << >> /\ ~n.ilz /\ n.cc # 52 THEN 0
     ELSE IF type = "Mobile" /\ n.cc = 86 THEN 0
     ELSE IF ~IsGeographical(type, n.cc) THEN 0
     ELSE NdcLength(n)

-----------------------------------------------------------------------------
(* examples *)
NoExample == Err("NoExample")
ExampleRT(r, t) ==
  IF ~IsSupported(r) THEN NoExample
  ELSE LET d == MD[RegionIdx[r]][FieldOf[t]]
       IN IF d.ex = << >> THEN NoExample
          ELSE LET p == ParseNumber(d.ex, r) IN IF p.k = "num" THEN p ELSE NoExample
ExampleNonGeo(c) ==
  IF c \notin NonGeoCodes THEN NoExample
  ELSE LET md == MD[NonGeoIdx[c]]
           fs == <<"mobile", "tollFree", "sharedCost", "voip", "voicemail", "uan", "premiumRate">>
           i == SelectInSeq(fs, LAMBDA f : md[f].ex # << >>)
       IN IF i = 0 THEN NoExample
          ELSE ParseNumber(<<Plus>> \o IntDigits(c) \o md[fs[i]].ex, Unknown)
InvalidExample(r) ==
  IF ~IsSupported(r) \/ MD[RegionIdx[r]].fixedLine.ex = << >> THEN NoExample
  ELSE LET ex == MD[RegionIdx[r]].fixedLine.ex
           Try(len) == ParseNumber(UpTo(ex, len), r)
           good == {len \in 2..(Len(ex) - 1) : Try(len).k = "num" /\ ~IsValid(Try(len).v)}
       IN IF good = {} THEN NoExample ELSE Try(MaxOf(good))
(* any region's example will do; without one, any non-geographical entity's *)
ExamplesForType(t) ==
  LET rs == {r \in SupportedRegions : ExampleRT(r, t).k = "num"}
      cs == {c \in NonGeoCodes : MD[NonGeoIdx[c]][FieldOf[t]].ex # << >>}
  IN IF rs # {} THEN {ExampleRT(r, t) : r \in rs}
     ELSE IF cs # {} THEN
       {ParseNumber(<<Plus>> \o IntDigits(c) \o MD[NonGeoIdx[c]][FieldOf[t]].ex, Unknown) : c \in cs}
     ELSE {NoExample}

-----------------------------------------------------------------------------
(* results *)
Str(v) == [k |-> "str", v |-> v]
Bool(v) == [k |-> "bool", v |-> v]
IntV(v) == [k |-> "int", v |-> v]
None == [k |-> "none", v |-> 0]
List(v) == [k |-> "list", v |-> v]

(* call e's result; for "list" results v is a set, the order of a list carries no meaning *)
Result(e) ==
  CASE e.op = "parse" -> ParseNumber(e.s, e.r)
    [] e.op = "parsekeep" -> ParseKeeping(e.s, e.r)
    [] e.op = "format" -> Str(Formatted(e.n, e.f))
    [] e.op = "original" -> Str(Original(e.n, e.r))
    [] e.op = "carrier" -> Str(WithCarrier(e.n, e.c))
    [] e.op = "prefcarrier" -> Str(WithPreferredCarrier(e.n, e.c))
    [] e.op = "mobile" -> Str(ForMobile(e.n, e.r, e.b))
    [] e.op = "ooc" -> Str(OutOfCountry(e.n, e.r))
    [] e.op = "keepalpha" -> Str(KeepingAlpha(e.n, e.r))
    [] e.op = "bypattern" -> Str(FormatByPattern(e.n, e.f, [i \in 1..Len(e.u) |-> World.uf[e.u[i]]]))
    [] e.op = "nsn" -> Str(Nsn(e.n))
    [] e.op = "type" -> Enum(TypeOf(e.n))
    [] e.op = "region" -> Enum(RegionOf(e.n))
    [] e.op = "valid" -> Bool(IsValid(e.n))
    [] e.op = "validfor" -> Bool(IsValidFor(e.n, e.r))
    [] e.op = "possible" -> Bool(IsPossible(e.n))
    [] e.op = "reason" -> Enum(Reason(e.n, "Unknown"))
    [] e.op = "reasontype" -> Enum(Reason(e.n, e.t))
    [] e.op = "possiblestr" -> LET p == ParseNumber(e.s, e.r) IN Bool(p.k = "num" /\ IsPossible(p.v))
    [] e.op = "intl" -> Bool(CanBeIntlDialled(e.n))
    [] e.op = "geo" -> Bool(IsGeographical(TypeOf(e.n), e.n.cc))
    [] e.op = "arealen" -> IntV(AreaLength(e.n))
    [] e.op = "ndclen" -> IntV(NdcLength(e.n))
    [] e.op = "match" -> Enum(Compare(e.n, e.m))
    [] e.op = "match1" -> CompareText(e.n, e.s)
    [] e.op = "match2" -> CompareTexts(e.s, e.s2)
    [] e.op = "truncate" -> [k |-> "trunc", v |-> Truncated(e.n)]
    [] e.op = "alpha" -> Bool(IsAlphaNumber(e.s))
    [] e.op = "convert" -> Str(ConvertAlpha(e.s))
    [] e.op = "example" -> ExampleRT(e.r, "FixedLine")
    [] e.op = "exampleregtype" -> ExampleRT(e.r, e.t)
    [] e.op = "exampleng" -> ExampleNonGeo(e.i)
    [] e.op = "invexample" -> InvalidExample(e.r)
    [] e.op = "ccregion" -> Enum(MainRegion(e.i))
    [] e.op = "ccregions" -> IF e.i \in Codes THEN List(ToSet(CodeRegions[e.i])) ELSE None
    [] e.op = "regioncc" -> IF IsSupported(e.r) THEN IntV(MD[RegionIdx[e.r]].cc) ELSE None
    [] e.op = "regions" -> List(SupportedRegions)
    [] e.op = "nanpa" -> Bool(e.r \in NanpaRegions)
    [] e.op = "types" -> IF IsSupported(e.r) THEN List(TypesIn(MD[RegionIdx[e.r]])) ELSE None
    [] e.op = "typesng" -> IF e.i \in NonGeoCodes THEN List(TypesIn(MD[NonGeoIdx[e.i]])) ELSE None
    [] e.op = "codes" -> List(Codes)
    [] e.op = "codesng" -> List(NonGeoCodes)
    [] e.op = "ndd" -> IF IsSupported(e.r)
                       THEN Str(LET np == MD[RegionIdx[e.r]].np
                                IN IF e.b THEN SelectSeq(np, LAMBDA c : c # Tilde) ELSE np)
                       ELSE None
=============================================================================

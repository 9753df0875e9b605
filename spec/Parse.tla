-------------------------------- MODULE Parse --------------------------------
(* From text to number. *)
EXTENDS Plan

Blank == [cc |-> 0, nn |-> <<48>>, hext |-> FALSE, ext |-> << >>, ilz |-> FALSE, nlz |-> 1,
          hraw |-> FALSE, raw |-> << >>, src |-> "NONE", hpdcc |-> FALSE, pdcc |-> << >>]

Ok(n) == [k |-> "num", v |-> n]
Err(e) == [k |-> "err", v |-> e]

MatchesPlan(md, nsn) == MatchesPattern(md.general, nsn)

(* the national prefix (with carrier code) is taken off unless that turns a number that
   fits the plan into one that does not; a transform rule may rewrite the number *)
StripNationalPrefix(md, s) ==
  LET keep == [n |-> s, has |-> FALSE, carrier |-> << >>]
  IN IF s = << >> \/ md.npparse = 0 THEN keep
     ELSE LET rx == RxOf(md.npparse)
              m == MatchAt(rx, s, 1)
              g1 == m # NoMatch /\ HasGroup(m, 1)
              g2 == m # NoMatch /\ HasGroup(m, 2)
              transform == /\ md.nptransform # << >>
                           /\ g1
                           /\ IF g2 THEN GroupOf(m, 2, s) # << >> ELSE GroupOf(m, 1, s) # << >>
              rest == From(s, m[1])
              result == IF transform THEN Expand(md.nptransform, 1, m, s) \o rest ELSE rest
              carrier == IF transform THEN g2 ELSE g1
          IN IF m = NoMatch THEN keep
             ELSE IF MatchesPlan(md, s) /\ ~MatchesPlan(md, result) THEN keep
             ELSE [n |-> result, has |-> carrier,
                   carrier |-> IF carrier THEN GroupOf(m, 1, s) ELSE << >>]

(* plus sign, international prefix of the region, or neither *)
StripInternationalPrefix(s, m) ==
  LET none(t) == [n |-> t, src |-> "DEFAULT"]
  IN IF s = << >> THEN none(s)
     ELSE IF IsPlus(s[1]) THEN [n |-> Normalize(From(s, HeadEnd(s, IsPlus))), src |-> "PLUS"]
     ELSE LET t == Normalize(s)
              idd == IF m = 0 THEN NoMatch ELSE MatchAt(RxOf(MD[m].idd), t, 1)
              rest == From(t, idd[1])
          IN IF idd = NoMatch \/ (rest # << >> /\ rest[1] = 48) THEN none(t)
             ELSE [n |-> rest, src |-> "IDD"]

(* the calling code at the start of a full international number: 0 if there is none *)
CodeAt(s) ==
  IF s = << >> \/ s[1] = 48 THEN 0
  ELSE LET at == {i \in 1..3 : i <= Len(s) /\ NatOf(UpTo(s, i)) \in Codes}
       IN IF at = {} THEN 0 ELSE Min(at)

(* result of looking for a calling code: an error, or the code (0: the region's) with
   the rest of the number and where the code came from *)
ExtractCode(m, text) ==
  LET p == StripInternationalPrefix(text, m)
      s == p.n
      found(cc, n, src) == [err |-> "", cc |-> cc, n |-> n, src |-> src]
      fail(e) == [err |-> e, cc |-> 0, n |-> s, src |-> p.src]
  IN IF p.src # "DEFAULT" THEN
       IF Len(s) <= 2 THEN fail("TooShortAfterIdd")
       ELSE LET i == CodeAt(s)
            IN IF i = 0 THEN fail("InvalidCountryCode") ELSE found(NatOf(UpTo(s, i)), From(s, i + 1), p.src)
     ELSE IF m = 0 THEN found(0, s, p.src)
     ELSE LET md == MD[m]
              code == IntDigits(md.cc)
              rest == StripNationalPrefix(md, From(s, Len(code) + 1)).n
          IN IF /\ StartsWith(s, code)
                /\ \/ ~MatchesPlan(md, s) /\ MatchesPlan(md, rest)
                   \/ LengthVerdict(md, "Unknown", Len(s)) = "TooLong"
             THEN found(md.cc, rest, "NOPLUS")
             ELSE found(0, s, p.src)

(* an unknown code after a plus: the text is read once more without the plus *)
CallingCode(m, text) ==
  LET a == ExtractCode(m, text)
  IN IF a.err # "InvalidCountryCode" \/ text = << >> \/ ~IsPlus(text[1]) THEN a
     ELSE LET b == ExtractCode(m, From(text, HeadEnd(text, IsPlus)))
          IN IF b.err = "" /\ b.cc = 0 THEN [b EXCEPT !.err = "InvalidCountryCode"] ELSE b

LeadingZeros(s) ==
  LET j == HeadEnd(s, LAMBDA c : c = 48) - 1
  IN IF Len(s) < 2 THEN 0 ELSE IF j = Len(s) THEN j - 1 ELSE j

Parsed(text, region, keep, checkRegion) ==
  LET whole == NumberText(text)
  IN IF whole = NotText \/ ~IsViable(whole) THEN Err("NotANumber")
     ELSE IF checkRegion /\ ~IsSupported(region) /\ ~IsPlus(whole[1]) THEN Err("InvalidCountryCode")
     ELSE
       LET x == StripExtension(whole)
           m0 == MdOfRegion(region)
           c == CallingCode(m0, x.n)
           m == IF c.cc # 0 THEN MainMd(c.cc) ELSE m0
           cc == IF c.cc # 0 THEN c.cc ELSE IF m0 # 0 THEN MD[m0].cc ELSE 0
       IN IF c.err # "" THEN Err(c.err)
          ELSE IF Len(c.n) < 2 THEN Err("TooShortNsn")
          ELSE
            LET st == IF m = 0 THEN [n |-> c.n, has |-> FALSE, carrier |-> << >>]
                      ELSE StripNationalPrefix(MD[m], c.n)
                taken == m # 0 /\ LengthVerdict(MD[m], "Unknown", Len(st.n))
                                    \notin {"IsPossibleLocalOnly", "TooShort", "InvalidLength"}
                nsn == IF taken THEN st.n ELSE c.n
                z == LeadingZeros(nsn)
            IN IF Len(nsn) < 2 THEN Err("TooShortNsn")
               ELSE IF Len(nsn) > 17 THEN Err("TooLongNsn")
               ELSE Ok([cc |-> cc, nn |-> Canon(nsn),
                        hext |-> x.has, ext |-> x.ext,
                        ilz |-> z > 0, nlz |-> IF z > 1 THEN z ELSE 1,
                        hraw |-> keep, raw |-> IF keep THEN text ELSE << >>,
                        src |-> IF keep THEN c.src ELSE "NONE",
                        hpdcc |-> keep /\ taken /\ st.has,
                        pdcc |-> IF keep /\ taken /\ st.has THEN st.carrier ELSE << >>])

ParseNumber(text, region) == Parsed(text, region, FALSE, TRUE)
ParseKeeping(text, region) == Parsed(text, region, TRUE, TRUE)
=============================================================================

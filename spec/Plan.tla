-------------------------------- MODULE Plan --------------------------------
(* The numbering plans: lookup tables, matching of national numbers, lengths,
   types, validity, regions. A number is a record
     cc    calling code            nn    national number, canonical digits
     hext, ext   extension         ilz, nlz   leading zeros
     hraw, raw   raw input         src   where the calling code came from
     hpdcc, pdcc preferred domestic carrier code                            *)
EXTENDS Viable

MD == World.md
NMD == Len(MD)
NonGeoId == "001"
Unknown == "ZZ"

DfaOf(p) == World.dfa[p]
RxOf(p) == World.rx[p]

SupportedRegions == {MD[i].id : i \in 1..NMD} \ {NonGeoId, Unknown}
RegionIdx == [r \in SupportedRegions |-> CHOOSE i \in 1..NMD : MD[i].id = r]
NonGeoCodes == {MD[i].cc : i \in {j \in 1..NMD : MD[j].id = NonGeoId}}
NonGeoIdx == [c \in NonGeoCodes |-> CHOOSE i \in 1..NMD : MD[i].id = NonGeoId /\ MD[i].cc = c]
Codes == {MD[i].cc : i \in {j \in 1..NMD : MD[j].id # Unknown}}

(* the regions of a calling code in the order of the plans, the main one in front *)
CodeRegions == [c \in Codes |->
  FoldLeft(LAMBDA a, m : IF m.cc # c \/ m.id = Unknown THEN a
                         ELSE IF m.main THEN <<m.id>> \o a ELSE Append(a, m.id), << >>, MD)]
NanpaRegions == {MD[i].id : i \in {j \in 1..NMD : MD[j].cc = 1}}

IsSupported(r) == r \in SupportedRegions
MdOfRegion(r) == IF r \in SupportedRegions THEN RegionIdx[r] ELSE 0
MdOf(cc, r) == IF r = NonGeoId THEN (IF cc \in NonGeoCodes THEN NonGeoIdx[cc] ELSE 0)
               ELSE MdOfRegion(r)
MainRegion(cc) == IF cc \in Codes THEN CodeRegions[cc][1] ELSE Unknown
MainMd(cc) == MdOf(cc, MainRegion(cc))

(* the national significant number *)
Nsn(n) == (IF n.ilz /\ n.nlz > 0 THEN Rep(48, n.nlz) ELSE << >>) \o n.nn

-----------------------------------------------------------------------------
(* membership *)
MatchesPattern(d, nsn) == d.p # 0 /\ DfaAccepts(DfaOf(d.p), nsn)
LengthAllowed(d, nsn) == d.l = << >> \/ \E i \in 1..Len(d.l) : d.l[i] = Len(nsn)
MatchesDesc(d, nsn) == LengthAllowed(d, nsn) /\ MatchesPattern(d, nsn)

Precedence == <<
  <<"PremiumRate", "premiumRate">>, <<"TollFree", "tollFree">>, <<"SharedCost", "sharedCost">>,
  <<"VoIP", "voip">>, <<"PersonalNumber", "personalNumber">>, <<"Pager", "pager">>,
  <<"UAN", "uan">>, <<"VoiceMail", "voicemail">> >>

TypeIn(md, nsn) ==
  IF ~MatchesDesc(md.general, nsn) THEN "Unknown"
  ELSE LET i == SelectInSeq(Precedence, LAMBDA t : MatchesDesc(md[t[2]], nsn))
           fixed == MatchesDesc(md.fixedLine, nsn)
           mobile == MatchesDesc(md.mobile, nsn)
       IN IF i # 0 THEN Precedence[i][1]
          ELSE IF fixed /\ (md.same \/ mobile) THEN "FixedLineOrMobile"
          ELSE IF fixed THEN "FixedLine"
          ELSE IF mobile /\ ~md.same THEN "Mobile"
          ELSE "Unknown"

RegionOf(n) ==
  IF n.cc \notin Codes THEN Unknown
  ELSE LET rs == CodeRegions[n.cc]
           nsn == Nsn(n)
       IN IF Len(rs) = 1 THEN rs[1]
          ELSE LET i == SelectInSeq(rs, LAMBDA r :
                          LET md == MD[RegionIdx[r]]
                          IN \/ md.leading # 0 /\ DfaHasPrefix(DfaOf(md.leading), nsn)
                             \/ TypeIn(md, nsn) # "Unknown")
               IN IF i = 0 THEN Unknown ELSE rs[i]

TypeOf(n) ==
  LET m == MdOf(n.cc, RegionOf(n)) IN IF m = 0 THEN "Unknown" ELSE TypeIn(MD[m], Nsn(n))

IsValidFor(n, r) ==
  LET m == MdOf(n.cc, r)
  IN m # 0 /\ MD[m].cc = n.cc /\ TypeIn(MD[m], Nsn(n)) # "Unknown"
IsValid(n) == IsValidFor(n, RegionOf(n))

CanBeIntlDialled(n) ==
  LET m == MdOfRegion(RegionOf(n))
  IN m = 0 \/ ~MatchesDesc(MD[m].noInternationalDialling, Nsn(n))

-----------------------------------------------------------------------------
(* lengths *)
FieldOf == [FixedLine |-> "fixedLine", Mobile |-> "mobile", FixedLineOrMobile |-> "fixedLine",
            TollFree |-> "tollFree", PremiumRate |-> "premiumRate", SharedCost |-> "sharedCost",
            VoIP |-> "voip", PersonalNumber |-> "personalNumber", Pager |-> "pager", UAN |-> "uan",
            VoiceMail |-> "voicemail", Unknown |-> "general"]
TypeNames == DOMAIN FieldOf

NoNumbers(d) == d.l = <<-1>>
(* the lengths of a type: those of the general description when it has none of its own *)
LengthsOf(md, d) == ToSet(IF d.l = << >> THEN md.general.l ELSE d.l)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Verdict(poss, locals, len) ==
  IF poss = {} \/ -1 \in poss THEN "InvalidLength"
  ELSE IF len \in locals THEN "IsPossibleLocalOnly"
  ELSE IF len \in poss THEN "IsPossible"
  ELSE IF len < Min(poss) THEN "TooShort"
  ELSE IF len > MaxOf(poss) THEN "TooLong"
  ELSE "InvalidLength"

LengthVerdict(md, type, len) ==
  LET d == md[FieldOf[type]]
      both == type = "FixedLineOrMobile"
  IN IF both /\ NoNumbers(md.fixedLine) THEN
       Verdict(LengthsOf(md, md.mobile), ToSet(md.mobile.lo), len)
     ELSE IF both /\ ~NoNumbers(md.mobile) THEN
       Verdict(LengthsOf(md, md.fixedLine) \cup LengthsOf(md, md.mobile),
               ToSet(md.fixedLine.lo) \cup ToSet(md.mobile.lo), len)
     ELSE Verdict(LengthsOf(md, d), ToSet(d.lo), len)

Reason(n, type) ==
  LET m == MainMd(n.cc) IN IF m = 0 THEN "InvalidCountryCode" ELSE LengthVerdict(MD[m], type, Len(Nsn(n)))
IsPossible(n) == Reason(n, "Unknown") \in {"IsPossible", "IsPossibleLocalOnly"}

-----------------------------------------------------------------------------
(* what the plans offer *)
HasData(d) == d.ex # << >> \/ ~NoNumbers(d) \/ d.p # 0
TypesIn(md) == {t \in TypeNames \ {"Unknown", "FixedLineOrMobile"} : HasData(md[FieldOf[t]])}
=============================================================================

------------------------------- MODULE Format -------------------------------
(* From number to text. *)
EXTENDS Parse

Tel == <<116,101,108,58>>                     \* tel:
DefaultExtn == <<32,101,120,116,46,32>>       \* " ext. "
DollarCC == <<36,67,67>>
DollarNP == <<36,78,80>>
DollarFG == <<36,70,71>>
DollarOne == <<36,49>>

WithCode(cc, f, t) ==
  LET c == IntDigits(cc)
  IN CASE f = "E164" -> <<Plus>> \o c \o t
       [] f = "INTL" -> <<Plus>> \o c \o <<32>> \o t
       [] f = "RFC"  -> Tel \o <<Plus>> \o c \o <<45>> \o t
       [] OTHER -> t

(* the first format whose leading digits and whole pattern the number has; 0 if none *)
ChooseFormat(fs, nsn) ==
  SelectInSeq(fs, LAMBDA f : /\ f.ld # 0 => DfaHasPrefix(DfaOf(f.ld), nsn)
                             /\ DfaAccepts(DfaOf(f.pd), nsn))

(* a rule takes the place of the first $n of a format; $1 in the rule is that $n *)
FirstGroup(t) == SelectInSeq([i \in 1..Len(t) |-> <<t[i], IF i < Len(t) THEN t[i + 1] ELSE 0>>],
                             LAMBDA p : p[1] = 36 /\ p[2] \in 48..57)
ApplyRule(t, rule) ==
  LET i == FirstGroup(t)
  IN IF i = 0 THEN t
     ELSE LET m == <<i + 2, << <<i, i + 2>> >> >>
          IN UpTo(t, i - 1) \o Expand(rule, 1, m, t) \o From(t, i + 2)

Hyphens(t) ==   \* RFC 3966 separators
  LET t1 == From(t, HeadEnd(t, IsPunct))
      keep == {i \in 1..Len(t1) : ~IsPunct(t1[i]) \/ (i = 1 \/ ~IsPunct(t1[i - 1]))}
      idx == SelectSeq([i \in 1..Len(t1) |-> i], LAMBDA i : i \in keep)
  IN [j \in 1..Len(idx) |-> IF IsPunct(t1[idx[j]]) THEN 45 ELSE t1[idx[j]]]

FormatUsing(f, nsn, fmt, carrier) ==
  LET rule == IF fmt # "NATL" THEN << >>
              ELSE IF carrier # << >> /\ f.cc # << >> THEN ReplaceFirst(f.cc, DollarCC, carrier)
              ELSE f.np
      template == IF rule = << >> THEN f.f ELSE ApplyRule(f.f, rule)
      t == ReplaceEvery(RxOf(f.p), nsn, template)
  IN IF fmt = "RFC" THEN Hyphens(t) ELSE t

FormatNsn(md, nsn, fmt, carrier) ==
  LET fs == IF md.intl = << >> \/ fmt = "NATL" THEN md.nf ELSE md.intl
      i == ChooseFormat(fs, nsn)
  IN IF i = 0 THEN nsn ELSE FormatUsing(fs[i], nsn, fmt, carrier)

ExtensionText(n, md, fmt) ==
  IF ~n.hext \/ n.ext = << >> THEN << >>
  ELSE (IF fmt = "RFC" THEN RfcLabel ELSE IF md.extn # << >> THEN md.extn ELSE DefaultExtn) \o n.ext

Formatted(n, fmt) ==
  IF n.nn = <<48>> /\ n.raw # << >> THEN n.raw
  ELSE LET nsn == Nsn(n)
           m == MainMd(n.cc)
       IN IF fmt = "E164" THEN WithCode(n.cc, fmt, nsn)
          ELSE IF m = 0 THEN nsn
          ELSE WithCode(n.cc, fmt, FormatNsn(MD[m], nsn, fmt, << >>) \o ExtensionText(n, MD[m], fmt))

(* formats given by the caller *)
FormatByPattern(n, fmt, fs) ==
  LET nsn == Nsn(n)
      m == MainMd(n.cc)
  IN IF m = 0 THEN nsn
     ELSE LET md == MD[m]
              i == ChooseFormat(fs, nsn)
              f == fs[i]
              g == [f EXCEPT !.np = IF f.np = << >> \/ md.np = << >> THEN << >>
                                    ELSE Replace(Replace(f.np, DollarNP, md.np), DollarFG, DollarOne)]
              t == IF i = 0 THEN nsn ELSE FormatUsing(g, nsn, fmt, << >>)
          IN WithCode(n.cc, fmt, t \o ExtensionText(n, md, "NATL"))

WithCarrier(n, carrier) ==
  LET nsn == Nsn(n)
      m == MainMd(n.cc)
  IN IF m = 0 THEN nsn
     ELSE FormatNsn(MD[m], nsn, "NATL", carrier) \o ExtensionText(n, MD[m], "NATL")
WithPreferredCarrier(n, fallback) == WithCarrier(n, IF n.pdcc # << >> THEN n.pdcc ELSE fallback)

-----------------------------------------------------------------------------
(* dialling from a region *)
AnyDigit(c) == IsNd(c)
IsTilde(c) == c = 126 \/ c = 8275 \/ c = 8764 \/ c = 65374
(* an international prefix without alternatives: digits, possibly a wait for a tone *)
SinglePrefix(t) ==
  LET ls == SelectInSeq(t, IsTilde)
      d(s) == s # << >> /\ \A i \in 1..Len(s) : AnyDigit(s[i])
  IN IF ls = 0 THEN d(t) ELSE d(UpTo(t, ls - 1)) /\ d(From(t, ls + 1))

OutOfCountry(n, from) ==
  IF ~IsSupported(from) THEN Formatted(n, "INTL")
  ELSE LET nsn == Nsn(n)
           here == MD[RegionIdx[from]]
       IN IF n.cc \notin Codes THEN nsn
          ELSE IF n.cc = 1 /\ from \in NanpaRegions THEN <<49, 32>> \o Formatted(n, "NATL")
          ELSE IF n.cc # 1 /\ n.cc = here.cc THEN Formatted(n, "NATL")
          ELSE LET idd == IF here.prefidd # << >> THEN here.prefidd
                          ELSE IF SinglePrefix(here.iddtext) THEN here.iddtext ELSE << >>
                   md == MD[MainMd(n.cc)]
                   t == FormatNsn(md, nsn, "INTL", << >>) \o ExtensionText(n, md, "INTL")
               IN IF idd # << >> THEN idd \o <<32>> \o IntDigits(n.cc) \o <<32>> \o t
                  ELSE WithCode(n.cc, "INTL", t)

KeepingAlpha(n, from) ==
  IF n.raw = << >> THEN OutOfCountry(n, from)
  ELSE IF n.cc \notin Codes THEN n.raw
  ELSE LET g == Grouped(n.raw)
           nsn == Nsn(n)
           at == IF Len(nsn) > 3 THEN Find(g, UpTo(nsn, 3)) ELSE 0
           body == IF at > 0 THEN From(g, at) ELSE g
           h == MdOfRegion(from)
           here == MD[h]
       IN IF n.cc = 1 /\ from \in NanpaRegions THEN <<49, 32>> \o body
          ELSE IF n.cc # 1 /\ h # 0 /\ n.cc = here.cc THEN
            LET i == ChooseFormat(here.nf, nsn)
                f == here.nf[i]
                \* the prefix rule of the number's format in front of its own grouping
                d == SelectInSeq(body, AsciiDigit)
                e == d + HeadEnd(From(body, d), AsciiDigit) - 1
                template == IF f.np = << >> THEN <<36,49,36,50>> ELSE ApplyRule(<<36,49,36,50>>, f.np)
                m == <<Len(body) + 1, << <<d, e>>, <<e, Len(body) + 1>> >> >>
            IN IF i = 0 \/ d = 0 THEN body ELSE UpTo(body, d - 1) \o Expand(template, 1, m, body)
          ELSE
            LET idd == IF h = 0 THEN << >>
                       ELSE IF SinglePrefix(here.iddtext) THEN here.iddtext ELSE here.prefidd
                t == IF idd # << >> THEN idd \o <<32>> \o IntDigits(n.cc) \o <<32>> \o body
                     ELSE WithCode(n.cc, "INTL", body)
            IN StripExtension(t).n \o ExtensionText(n, MD[MainMd(n.cc)], "INTL")

FixedOrMobile == {"FixedLine", "Mobile", "FixedLineOrMobile"}

ForMobile(number, from, formatting) ==
  IF number.cc \notin Codes THEN number.raw
  ELSE LET n == [number EXCEPT !.hext = FALSE, !.ext = << >>]
           main == MainRegion(n.cc)
           type == TypeOf(n)
           finish(t) == IF formatting THEN t ELSE Diallable(t)
       IN IF from = main THEN
            finish(
              IF main = "BR" /\ type \in FixedOrMobile THEN
                (IF n.pdcc = << >> THEN << >> ELSE WithCarrier(n, n.pdcc))
              ELSE IF n.cc = 1 THEN
                Formatted(n, IF CanBeIntlDialled(n)
                                /\ LengthVerdict(MD[RegionIdx[from]], "Unknown", Len(Nsn(n))) # "TooShort"
                             THEN "INTL" ELSE "NATL")
              ELSE Formatted(n, IF /\ \/ main = NonGeoId
                                      \/ main \in {"MX", "CL", "UZ"} /\ type \in FixedOrMobile
                                   /\ CanBeIntlDialled(n)
                                THEN "INTL" ELSE "NATL"))
          ELSE IF type # "Unknown" /\ CanBeIntlDialled(n) THEN
            Formatted(n, IF formatting THEN "INTL" ELSE "E164")
          ELSE << >>

-----------------------------------------------------------------------------
(* as it was dialled *)
RawHasNationalPrefix(raw, np, region) ==
  LET d == DigitsOnly(raw)
      p == ParseNumber(From(d, Len(np) + 1), region)
  IN StartsWith(d, np) /\ p.k = "num" /\ IsValid(p.v)

Tilde == 126
NationalAsDialled(n) ==
  LET r == MainRegion(n.cc)
      natl == Formatted(n, "NATL")
  IN IF ~IsSupported(r) THEN natl
     ELSE LET md == MD[RegionIdx[r]]
              np == SelectSeq(md.np, LAMBDA c : c # Tilde)
              i == ChooseFormat(md.nf, Nsn(n))
              f == md.nf[i]
              at == Find(f.np, DollarOne)
          IN IF RawHasNationalPrefix(n.raw, np, r) \/ i = 0 THEN natl
             ELSE IF f.np = << >> \/ at = 0 \/ DigitsOnly(UpTo(f.np, at - 1)) = << >> THEN natl
             ELSE FormatByPattern(n, "NATL", <<[f EXCEPT !.np = << >>]>>)

HasFormat(n) ==
  LET m == MainMd(n.cc) IN m # 0 /\ ChooseFormat(MD[m].nf, Nsn(n)) # 0

Original(n, from) ==
  IF n.hraw /\ ~HasFormat(n) THEN n.raw
  ELSE IF n.src = "NONE" THEN Formatted(n, "NATL")
  ELSE LET t == CASE n.src = "PLUS" -> Formatted(n, "INTL")
                  [] n.src = "IDD" -> OutOfCountry(n, from)
                  [] n.src = "NOPLUS" -> LET f == Formatted(n, "INTL")
                                         IN IF f # << >> /\ f[1] = Plus THEN From(f, 2) ELSE f
                  [] OTHER -> NationalAsDialled(n)
       IN IF t # << >> /\ n.raw # << >> /\ Diallable(t) # Diallable(n.raw) THEN n.raw ELSE t
=============================================================================

-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded calls. An event is a call with the result the code gave, in
   e.out, and the property it is judged for, in e.j. Functional operations must have
   the specified result; short histories of calls (chain, keep2, ext, same, ...) must
   satisfy the relation the property states between their results.                   *)
EXTENDS Ops

Events == ndJsonDeserialize(IOEnv.VP_EVENTS)
NEv == Len(Events)
Chunks == IF NEv < 64 THEN 1 ELSE 64

VARIABLES chunk, pos

-----------------------------------------------------------------------------
(* verdicts on an event: "ok", "vacuous" (the premise of the relation is not met), or
   what was expected instead                                                        *)
Want(w) == "want " \o ToString(w)
Must(cond, w) == IF cond THEN "ok" ELSE Want(w)

(* what identifies a number: code, national significant number, leading zeros, extension *)
NumberOf(n) == [cc |-> n.cc, nn |-> n.nn, ilz |-> n.ilz, nlz |-> IF n.ilz THEN n.nlz ELSE 1]
WithExt(n) == [number |-> NumberOf(n), ext |-> IF n.hext THEN n.ext ELSE << >>]
SameParse(a, b) == a.k = b.k /\ (IF a.k = "num" THEN WithExt(a.v) = WithExt(b.v) ELSE a.v = b.v)
SameNumber(a, b) == a.k = b.k /\ (IF a.k = "num" THEN NumberOf(a.v) = NumberOf(b.v) ELSE a.v = b.v)

SameResult(want, out) ==
  IF want.k # out.k THEN FALSE
  ELSE IF want.k = "list" THEN ToSet(out.v) = want.v /\ Len(out.v) = Cardinality(want.v)
  ELSE out = want

Functional(e) ==
  IF e.op = "exampletype" THEN Must(e.out \in ExamplesForType(e.t), "an example")
  ELSE LET want == Result(e)
       IN Must(CASE e.op = "parse" /\ e.j = "C02" -> SameNumber(want, e.out)
                 [] e.op = "parse" /\ e.j # "C17" -> SameParse(want, e.out)
                 [] OTHER -> SameResult(want, e.out), want)

-----------------------------------------------------------------------------
(* C01, C16: format, read, format again *)
Back(n, f) == [k |-> "num", v |-> IF f = "E164" THEN [n EXCEPT !.hext = FALSE, !.ext = << >>] ELSE n]
ReadsBack(n, f, r) == SameParse(ParseNumber(Formatted(n, f), r), Back(n, f))
Chain(e) ==
  LET n == e.n
  IN IF e.j = "C01" /\ ~IsValid(n) THEN "vacuous: not valid"
     ELSE IF ~ReadsBack(n, e.f, e.r2) THEN "vacuous: reads differently"
     ELSE IF e.out.k # "chain" THEN Want("a round trip")
     ELSE Must(/\ SameParse(e.out.v.back, Back(n, e.f))
               /\ e.out.v.again = Str(e.out.v.out), Back(n, e.f))

(* C16: the text is a tel: URI of the number *)
Digit0(c) == c \in 48..57
RfcUri(n, t) ==
  LET code == Tel \o <<Plus>> \o IntDigits(n.cc) \o <<45>>
      ext == IF n.hext /\ n.ext # << >> THEN RfcLabel \o n.ext ELSE << >>
      body == SubSeq(t, Len(code) + 1, Len(t) - Len(ext))
  IN /\ StartsWith(t, code) /\ EndsWith(t, ext) /\ Len(t) > Len(code) + Len(ext)
     /\ \A i \in 1..Len(body) : Digit0(body[i]) \/ (body[i] = 45 /\ i \in 2..(Len(body) - 1))
Uri(e) ==
  IF e.n.cc \notin Codes \/ (e.n.nn = <<48>> /\ e.n.raw # << >>) THEN "vacuous"
  ELSE Must(e.out.k = "str" /\ RfcUri(e.n, e.out.v), "tel: URI")

(* C13 *)
Extended(e) ==
  LET b == ParseNumber(e.s, e.r)
      f == ParseNumber(e.s \o e.x, e.r)
      ab == e.out.v[1]
      af == e.out.v[2]
      has(x) == x.k = "num" /\ x.v.hext
  IN IF e.out.k # "pair" THEN Want("two results")
     ELSE IF ~has(f) THEN Must(~has(af), "no extension")
     ELSE IF ~has(af) \/ af.v.ext # f.v.ext THEN Want(f)
     ELSE IF ~SameNumber(b, f) \/ ab.k # "num" THEN "vacuous"
     ELSE Must(SameNumber(ab, af), ab)

(* C14 *)
Alike(e) ==
  LET n == Len(e.ss)
      want(i) == ParseNumber(e.ss[i], e.r)
  IN IF \E i \in 2..n : ~SameParse(want(i), want(1)) THEN "vacuous"
     ELSE IF e.out.k # "pair" THEN Want("equal results")
     ELSE Must(\A i \in 2..n : SameParse(e.out.v[i], e.out.v[1]), want(1))

(* C17 *)
Kept(e) ==
  LET p == e.out.v[1]
      q == e.out.v[2]
      want == ParseKeeping(e.s, e.r)
      plain(x) == [x EXCEPT !.hraw = FALSE, !.raw = << >>, !.src = "NONE", !.hpdcc = FALSE, !.pdcc = << >>]
  IN IF e.out.k # "pair" THEN Want("two results")
     ELSE IF p.k # q.k THEN Want("equal outcomes")
     ELSE IF p.k # "num" THEN Must(p = q, p)
     ELSE IF p.v # plain(q.v) THEN Want("the plain result with raw input, source and carrier only added")
     ELSE IF ~q.v.hraw \/ q.v.raw # e.s THEN Want("the input as raw input")
     ELSE IF ~SameParse(want, q) THEN "vacuous"
     ELSE Must(q = want, want)

(* C09 *)
Both(e) ==
  LET w == Compare(e.n, e.m)
      want == <<w, w, Compare(e.n, e.n)>>
  IN Must(e.out.k = "pair" /\ e.out.v = want, want)

(* C11, C19: parse keeping the raw input, then format *)
FromParsed(e, Op(_, _)) ==
  IF e.out.k = "err" THEN "vacuous"
  ELSE IF e.out.k # "pair" THEN Want("a result")
  ELSE LET n == e.out.v[1].v
           t == e.out.v[2]
           want == Str(Op(n, e.r2))
       IN Must(t = want, want)
OriginalKeeps(e) ==
  IF e.out.k # "pair" THEN TRUE
  ELSE LET t == e.out.v[2] IN t.k = "str" /\ (t.v = e.s \/ Diallable(t.v) = Diallable(e.s))

Verdict1(e) ==
  CASE e.out.k \in {"panic", "hang", "abort"} -> Want("a result")
    [] e.j = "C03" -> "ok"
    [] e.op = "chain" -> Chain(e)
    [] e.op = "ext" -> Extended(e)
    [] e.op = "same" -> Alike(e)
    [] e.op = "keep2" -> Kept(e)
    [] e.op = "matchboth" -> Both(e)
    [] e.op = "origchain" ->
         IF OriginalKeeps(e) THEN FromParsed(e, Original) ELSE Want("what was dialled")
    [] e.op = "alphachain" -> FromParsed(e, KeepingAlpha)
    [] e.op = "plan" -> LET m == MdOf(e.i, e.r)
                        IN Must(e.out = IF m = 0 THEN None ELSE [k |-> "plan", v |-> MD[m].raw], "the published plan")
    [] e.op = "format" /\ e.j = "C16" -> Uri(e)
    [] OTHER -> Functional(e)

-----------------------------------------------------------------------------
Report(e, v) == PrintT((IF v = "vacuous" \/ v = "vacuous: not valid" \/ v = "vacuous: reads differently" THEN "VACUOUS " ELSE "REJECT ")
                       \o ToString(e.ix) \o " " \o e.op \o " " \o v)

Init == chunk \in 1..Chunks /\ pos = chunk
Next == /\ pos <= NEv
        /\ LET v == Verdict1(Events[pos]) IN IF v = "ok" THEN TRUE ELSE Report(Events[pos], v)
        /\ pos' = pos + Chunks
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================

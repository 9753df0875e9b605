--------------------------------- MODULE Rx ---------------------------------
(* Regular expressions as used in the numbering plans: ordered (leftmost-first,
   greedy) matching with captures of a syntax tree against a sequence of code
   points, and runs of digit automata for patterns of which only the language
   matters. *)
EXTENDS Integers, Sequences, SequencesExt

InRanges(rs, c) == \E j \in 1..Len(rs) : rs[j][1] <= c /\ c <= rs[j][2]

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)

(* Matches(n, s, i, c): all ways to match node n in s from position i with captures c,
   best first; each is <<end, captures>>, captures a tuple of <<from, to>> (to exclusive,
   <<0, 0>> for a group that took no part). *)
RECURSIVE Matches(_, _, _, _), MatchSeq(_, _, _, _, _), MatchRep(_, _, _, _, _), SetRun(_, _, _, _)

SetRun(rs, s, i, most) ==
  IF most = 0 \/ i > Len(s) THEN 0
  ELSE IF InRanges(rs, s[i]) THEN 1 + SetRun(rs, s, i + 1, most - 1) ELSE 0

MatchSeq(a, j, s, i, c) ==
  IF j > Len(a) THEN << <<i, c>> >>
  ELSE LET first == Matches(a[j], s, i, c)
       IN Concat([x \in 1..Len(first) |-> MatchSeq(a, j + 1, s, first[x][1], first[x][2])])

MatchRep(n, m, s, i, c) ==
  LET more == IF n.hi = -1 \/ m < n.hi
              THEN SelectSeq(Matches(n.a, s, i, c), LAMBDA r : r[1] > i) ELSE << >>
      stop == IF m >= n.lo THEN << <<i, c>> >> ELSE << >>
  IN Concat([x \in 1..Len(more) |-> MatchRep(n, m + 1, s, more[x][1], more[x][2])]) \o stop

Matches(n, s, i, c) ==
  IF n.k = "set" THEN
    IF i <= Len(s) /\ InRanges(n.r, s[i]) THEN << <<i + 1, c>> >> ELSE << >>
  ELSE IF n.k = "cat" THEN MatchSeq(n.a, 1, s, i, c)
  ELSE IF n.k = "grp" THEN
    LET r == Matches(n.a, s, i, c)
    IN [x \in 1..Len(r) |-> <<r[x][1], [r[x][2] EXCEPT ![n.n] = <<i, r[x][1]>>]>>]
  ELSE IF n.k = "alt" THEN
    Concat([x \in 1..Len(n.a) |-> Matches(n.a[x], s, i, c)])
  ELSE IF n.k = "end" THEN
    IF i = Len(s) + 1 THEN << <<i, c>> >> ELSE << >>
  ELSE IF n.a.k = "set" THEN
    LET run == SetRun(n.a.r, s, i, IF n.hi = -1 THEN Len(s) ELSE n.hi)
    IN IF run < n.lo THEN << >> ELSE [x \in 1..(run - n.lo + 1) |-> <<i + run - x + 1, c>>]
  ELSE MatchRep(n, 0, s, i, c)

NoCaps(g) == [x \in 1..g |-> <<0, 0>>]

NoMatch == <<0, << >> >>

(* the match of expression r = [n |-> tree, g |-> number of groups] that begins at i, or NoMatch *)
MatchAt(r, s, i) ==
  LET m == Matches(r.n, s, i, NoCaps(r.g)) IN IF m = << >> THEN NoMatch ELSE m[1]

HasGroup(m, g) == Len(m[2]) >= g /\ m[2][g][1] # 0
GroupOf(m, g, s) == SubSeq(s, m[2][g][1], m[2][g][2] - 1)

(* the whole text is in the language (some way of matching it ends at its end) *)
WholeMatch(r, s) ==
  \E x \in {m[1] : m \in ToSet(Matches(r.n, s, 1, NoCaps(r.g)))} : x = Len(s) + 1

(* Templates: $name stands for a group, a name is as many of [0-9A-Za-z_] as follow; a
   name that is no group of the match stands for nothing. Only numeric names occur. *)
NameChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
RECURSIVE NameEnd(_, _)
NameEnd(t, j) == IF j <= Len(t) /\ NameChar(t[j]) THEN NameEnd(t, j + 1) ELSE j

RECURSIVE Expand(_, _, _, _)
Expand(t, j, m, s) ==
  IF j > Len(t) THEN << >>
  ELSE IF t[j] # 36 THEN <<t[j]>> \o Expand(t, j + 1, m, s)
  ELSE LET e == NameEnd(t, j + 1)
           name == SubSeq(t, j + 1, e - 1)
       IN IF name = << >> THEN <<36>> \o Expand(t, j + 1, m, s)
          ELSE IF Len(name) = 1 /\ name[1] \in 49..57
               THEN (IF HasGroup(m, name[1] - 48) THEN GroupOf(m, name[1] - 48, s) ELSE << >>)
                    \o Expand(t, e, m, s)
          ELSE IF name = <<48>> THEN SubSeq(s, 1, m[1] - 1) \o Expand(t, e, m, s)
          ELSE Expand(t, e, m, s)

(* replacing every match of r in s, from the left, by the template t *)
RECURSIVE ReplaceAllFrom(_, _, _, _)
ReplaceAllFrom(r, s, t, i) ==
  IF i > Len(s) THEN << >>
  ELSE LET m == MatchAt(r, s, i)
       IN IF m = NoMatch \/ m[1] = i THEN <<s[i]>> \o ReplaceAllFrom(r, s, t, i + 1)
          ELSE Expand(t, 1, m, s) \o ReplaceAllFrom(r, s, t, m[1])

ReplaceEvery(r, s, t) == ReplaceAllFrom(r, s, t, 1)

-----------------------------------------------------------------------------
(* digit automata: state 0 is dead, 1 initial; t holds ten successors per state *)
DfaStep(d, q, c) == d.t[q * 10 + c - 47]
DfaRun(d, s) == FoldLeft(LAMBDA q, c : DfaStep(d, q, c), 1, s)
DfaAccepts(d, s) == d.a[DfaRun(d, s) + 1] = 1

RECURSIVE DfaPrefixFrom(_, _, _, _)
DfaPrefixFrom(d, s, q, i) ==
  \/ d.a[q + 1] = 1
  \/ q # 0 /\ i <= Len(s) /\ DfaPrefixFrom(d, s, DfaStep(d, q, s[i]), i + 1)
DfaHasPrefix(d, s) == DfaPrefixFrom(d, s, 1, 1)
=============================================================================

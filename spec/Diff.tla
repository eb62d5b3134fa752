-------------------------------- MODULE Diff ---------------------------------
(* Comparing and printing grammars and parse trees.                           *)
(* A term is [k, s, xs, t, sep, d, g, assoc, lead, trail, mn, mx]: its kind,  *)
(* the text or name it carries, its parts.  A grammar is a list of            *)
(* <<name, term>> by name.  A report is <<"same">> or <<kind, parts...>>      *)
(* that names what differs.  A case compares a with b: two grammars, or two   *)
(* trees.                                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
VARIABLES ci, ri, ph
vars == <<ci, ri, ph>>
cs == Cases[ci]
rn == Cases[ci].runs[ri]

----------------------------------------------------------------------------
(* Equality, part by part                                                     *)

Least(a, b) == IF a < b THEN a ELSE b
Same == <<"same">>
Pair(x, y) == IF x = y THEN <<>> ELSE <<x, y>>
RECURSIVE Before(_, _), OfTerms(_, _), OfList(_, _), OfGrammars(_, _), NameIn(_, _), TermOf(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before(Tail(a), Tail(b))
NameIn(g, x) == g # <<>> /\ (Head(g)[1] = x \/ NameIn(Tail(g), x))
TermOf(g, x) == IF Head(g)[1] = x THEN Head(g)[2] ELSE TermOf(Tail(g), x)
Changed(r) == r # Same

\* the reports of the places at which two lists differ, in order
OfList(xs, ys) ==
  IF xs = <<>> \/ ys = <<>> THEN <<>>
  ELSE LET r == OfTerms(Head(xs), Head(ys)) IN (IF Changed(r) THEN <<r>> ELSE <<>>) \o OfList(Tail(xs), Tail(ys))

OfTerms(a, b) ==
  IF a.k # b.k THEN <<"types", a.k, b.k>>
  ELSE CASE a.k \in {"S", "RE", "R", "X"} -> IF a.s = b.s THEN Same ELSE <<a.k, a.s, b.s>>
         [] a.k = "REF" ->
              IF /\ a.s = b.s /\ Len(a.d) = Len(b.d)
                 /\ (a.d # <<>> => ~Changed(OfTerms(a.d[1], b.d[1])))
              THEN Same ELSE <<"REF", a.s, b.s>>
         [] a.k \in {"Seq", "Oneof", "Stack"} ->
              LET l == Pair(Len(a.xs), Len(b.xs)) r == OfList(a.xs, b.xs)
              IN IF l = <<>> /\ r = <<>> THEN Same ELSE <<a.k, l, r>>
         [] a.k = "D" ->
              LET t == OfTerms(a.t, b.t) sep == OfTerms(a.sep, b.sep)
                  as == Pair(a.assoc, b.assoc) l == Pair(a.lead, b.lead) e == Pair(a.trail, b.trail)
              IN IF t = Same /\ sep = Same /\ as = <<>> /\ l = <<>> /\ e = <<>> THEN Same ELSE <<"D", t, sep, as, l, e>>
         [] a.k = "Q" ->
              LET t == OfTerms(a.t, b.t) l == Pair(a.mn, b.mn) h == Pair(a.mx, b.mx)
              IN IF t = Same /\ l = <<>> /\ h = <<>> THEN Same ELSE <<"Q", t, l, h>>
         [] a.k = "N" ->
              LET t == OfTerms(a.t, b.t) n == Pair(a.s, b.s)
              IN IF t = Same /\ n = <<>> THEN Same ELSE <<"N", n, t>>
         [] a.k = "G" ->
              LET t == OfTerms(a.t, b.t) g == OfGrammars(a.g, b.g)
              IN IF t = Same /\ g = Same THEN Same ELSE <<"G", t, g>>
         [] a.k \in {"C", "L"} -> OfTerms(a.t, b.t)

OfGrammars(a, b) ==
  LET only(x, y) == SelectSeq([i \in 1..Len(x) |-> x[i][1]], LAMBDA n : ~NameIn(y, n))
      both == SelectSeq(a, LAMBDA p : NameIn(b, p[1]))
      rs == [i \in 1..Len(both) |-> <<both[i][1], OfTerms(both[i][2], TermOf(b, both[i][1]))>>]
      ch == SelectSeq(rs, LAMBDA p : Changed(p[2]))
  IN IF only(a, b) = <<>> /\ only(b, a) = <<>> /\ ch = <<>> THEN Same
     ELSE <<"grammar", only(a, b), only(b, a), ch>>

\* trees are compared by shape: tags, extras, number and kinds of children
RECURSIVE OfTrees(_, _)
OfTrees(a, b) ==
  LET n == Least(Len(a[4]), Len(b[4]))
      kind(i) == a[4][i][1] = b[4][i][1]
      ty == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : ~kind(i + 1))
      rs == [i \in 1..n |-> <<i - 1, IF kind(i) /\ a[4][i][1] = "N" THEN OfTrees(a[4][i], b[4][i]) ELSE Same>>]
      ch == SelectSeq(rs, LAMBDA p : Changed(p[2]))
  IN IF a[2] = b[2] /\ a[3] = b[3] /\ Len(a[4]) = Len(b[4]) /\ ty = <<>> /\ ch = <<>> THEN Same
     ELSE <<"node", ty, ch>>

----------------------------------------------------------------------------
(* Printing                                                                   *)

RECURSIVE Dec(_), Join(_, _)
Dec(n) == (IF n > 9 THEN Dec(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Quoted(s) ==
  LET f(x) == CASE x = 34 -> <<92, 34>> [] x = 92 -> <<92, 92>> [] x = 10 -> <<92, 110>> [] x = 9 -> <<92, 116>>
                [] x = 13 -> <<92, 114>> [] x = 7 -> <<92, 97>> [] x = 8 -> <<92, 98>> [] x = 12 -> <<92, 102>> [] x = 11 -> <<92, 118>>
                [] x < 32 \/ x = 127 -> <<92, 120, Hex(x \div 16), Hex(x % 16)>>
                [] OTHER -> <<x>>
      RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc \o f(s[i]))
  IN <<34>> \o go(1, <<>>) \o <<34>>
Count(mn, mx) ==
  CASE mn = 0 /\ mx = 0 -> <<42>> [] mn = 0 /\ mx = 1 -> <<63>> [] mn = 1 /\ mx = 0 -> <<43>>
    [] OTHER -> <<123>> \o (IF mn = 0 THEN <<>> ELSE Dec(mn)) \o <<44>> \o (IF mx = 0 THEN <<>> ELSE Dec(mx)) \o <<125>>
Side(a) == IF a < 0 THEN <<60, 58>> ELSE IF a > 0 THEN <<58, 62>> ELSE <<58>>
Comma(b) == IF b THEN <<44>> ELSE <<>>
RECURSIVE Shown(_), ShownG(_)
ShownAll(xs) == [i \in 1..Len(xs) |-> Shown(xs[i])]
Shown(t) ==
  CASE t.k \in {"R", "X"} -> t.s
    [] t.k = "S" -> Quoted(t.s)
    [] t.k = "RE" -> <<47>> \o t.s \o <<47>>
    [] t.k = "REF" -> <<37>> \o t.s \o <<61>> \o Shown(t.d[1])
    [] t.k = "Seq" -> <<40>> \o Join(ShownAll(t.xs), <<32>>) \o <<41>>
    [] t.k = "Oneof" -> Join(ShownAll(t.xs), <<32, 124, 32>>)
    [] t.k = "Stack" -> Join(ShownAll(t.xs), <<32, 62, 32>>)
    [] t.k = "D" -> Shown(t.t) \o Side(t.assoc) \o Comma(t.lead) \o Shown(t.sep) \o Comma(t.trail)
    [] t.k = "Q" -> Shown(t.t) \o Count(t.mn, t.mx)
    [] t.k = "N" -> t.s \o <<61>> \o Shown(t.t)
    [] t.k = "L" -> <<40, 63, 61>> \o Shown(t.t) \o <<41>>
    [] t.k = "G" -> Shown(t.t) \o <<32, 123, 32>> \o ShownG(t.g) \o <<32, 125>>
ShownG(g) ==
  Join([i \in 1..Len(g) |-> g[i][1] \o <<32, 45, 62, 32>> \o Shown(g[i][2])], <<59, 32>>)
  \o (IF Len(g) > 1 THEN <<59>> ELSE <<>>)

----------------------------------------------------------------------------
(* Behaviour: one comparison, checked against what the code reported          *)

IsTree == rn.what = "trees"
Of(a, b) == IF IsTree THEN OfTrees(a, b) ELSE OfGrammars(a, b)
Init == ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs) /\ ph = "start"
Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m, n |-> 1])>>, OutFile)
Compare ==
  /\ ph = "start" /\ ph' = "end" /\ UNCHANGED <<ci, ri>>
  /\ LET r == Of(rn.a, rn.b)
         k == IF Changed(r) THEN "different" ELSE "same"
     IN IF rn.obs.ab # r \/ rn.obs.ba # Of(rn.b, rn.a) THEN Verdict("bad", [o |-> k, report |-> r])
        ELSE IF rn.obs.blank # <<r = Same, r = Same>> THEN Verdict("bad", [o |-> "words", report |-> r])
        ELSE IF ~IsTree /\ rn.print /\ rn.obs.shown # <<ShownG(rn.a), ShownG(rn.b)>>
             THEN Verdict("bad", [o |-> "print", shown |-> ShownG(rn.a)])
        ELSE Verdict("ok", [o |-> k])
Done == ph = "end" /\ UNCHANGED vars
Next == Compare \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the reports mean                                                      *)

RECURSIVE Shape(_)
Shape(t) == IF t[1] # "N" THEN <<t[1]>> ELSE <<"N", t[2], t[3], [i \in 1..Len(t[4]) |-> Shape(t[4][i])]>>
\* nothing is reported of a thing and itself
Reflexive == Of(rn.a, rn.a) = Same /\ Of(rn.b, rn.b) = Same
\* one way something differs exactly if it does the other way
Symmetric == (Of(rn.a, rn.b) = Same) <=> (Of(rn.b, rn.a) = Same)
\* nothing is reported exactly of two things that are the same
Faithful == (Of(rn.a, rn.b) = Same) <=> (IF IsTree THEN Shape(rn.a) = Shape(rn.b) ELSE rn.a = rn.b)
==============================================================================

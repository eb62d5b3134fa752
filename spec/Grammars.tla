------------------------------ MODULE Grammars ------------------------------
(* Operations on abstract grammars (see Notation.tla): macro expansion,       *)
(* automatic commit insertion, resolution of precedence stacks.               *)
EXTENDS Notation, FiniteSets

\* sub-terms of a term; nested grammars are reached separately
Parts(t) ==
  CASE t[1] \in {"Seq", "Oneof", "Stack"} -> t[2]
    [] t[1] = "D" -> <<t[2], t[3]>>
    [] t[1] \in {"Q", "L", "C", "G"} -> <<t[2]>>
    [] t[1] = "N" -> <<t[3]>>
    [] t[1] = "M" -> t[3]
    [] OTHER -> <<>>

----------------------------------------------------------------------------
(* Macros *)

IndexOf(xs, x) == IF \E i \in 1..Len(xs) : xs[i] = x THEN CHOOSE i \in 1..Len(xs) : xs[i] = x ELSE 0

RECURSIVE Subst(_, _, _), SubstAll(_, _, _), SubstGram(_, _, _)
SubstGram(g, ps, as) == [i \in 1..Len(g) |-> <<g[i][1], Subst(g[i][2], ps, as)>>]
SubstAll(xs, ps, as) == [i \in 1..Len(xs) |-> Subst(xs[i], ps, as)]
Subst(t, ps, as) ==
  CASE t[1] = "R" -> LET i == IndexOf(ps, t[2]) IN IF i = 0 THEN t ELSE as[i]
    [] t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], SubstAll(t[2], ps, as)>>
    [] t[1] = "D" -> <<"D", Subst(t[2], ps, as), Subst(t[3], ps, as), t[4], t[5], t[6]>>
    [] t[1] = "Q" -> <<"Q", Subst(t[2], ps, as), t[3], t[4]>>
    [] t[1] \in {"L", "C"} -> <<t[1], Subst(t[2], ps, as)>>
    [] t[1] = "N" -> <<"N", t[2], Subst(t[3], ps, as)>>
    [] t[1] = "M" -> <<"M", t[2], SubstAll(t[3], ps, as)>>
    [] t[1] = "G" -> <<"G", Subst(t[2], ps, as), SubstGram(t[3], ps, as)>>
    [] OTHER -> t

MacroOf(ms, n) == LET i == CHOOSE i \in 1..Len(ms) : ms[i][1] = n IN ms[i]
RECURSIVE Expand(_, _), ExpandAll(_, _), ExpandGram(_, _)
ExpandAll(xs, ms) == [i \in 1..Len(xs) |-> Expand(xs[i], ms)]
ExpandGram(g, ms) == [i \in 1..Len(g) |-> <<g[i][1], Expand(g[i][2], ms)>>]
Expand(t, ms) ==
  CASE t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], ExpandAll(t[2], ms)>>
    [] t[1] = "D" -> <<"D", Expand(t[2], ms), Expand(t[3], ms), t[4], t[5], t[6]>>
    [] t[1] = "Q" -> <<"Q", Expand(t[2], ms), t[3], t[4]>>
    [] t[1] \in {"L", "C"} -> <<t[1], Expand(t[2], ms)>>
    [] t[1] = "N" -> <<"N", t[2], Expand(t[3], ms)>>
    [] t[1] = "G" -> <<"G", Expand(t[2], ms), ExpandGram(t[3], ms)>>
    [] t[1] = "M" -> LET m == MacroOf(ms, t[2]) IN Expand(Subst(m[3], m[2], t[3]), ms)
    [] OTHER -> t

----------------------------------------------------------------------------
(* Automatic commit points *)

\* all literal occurrences of a term, with multiplicity, as a sequence
RECURSIVE Lits(_), LitsAll(_), LitsGram(_)
LitsAll(xs) == IF xs = <<>> THEN <<>> ELSE Lits(Head(xs)) \o LitsAll(Tail(xs))
LitsGram(g) == IF g = <<>> THEN <<>> ELSE Lits(Head(g)[2]) \o LitsGram(Tail(g))
Lits(t) ==
  CASE t[1] = "S" -> <<t[2]>>
    [] t[1] = "L" -> <<>>
    [] t[1] = "REF" -> t[3]
    [] t[1] = "D" -> Lits(t[2]) \o Lits(t[3]) \o (IF t[5] THEN Lits(t[3]) ELSE <<>>) \o (IF t[6] THEN Lits(t[3]) ELSE <<>>)
    [] t[1] = "G" -> Lits(t[2]) \o LitsGram(t[3])
    [] OTHER -> LitsAll(Parts(t))
Occurrences(xs, x) == Cardinality({i \in 1..Len(xs) : xs[i] = x})
Unique(g) == LET all == LitsGram(g) IN {all[i] : i \in {j \in 1..Len(all) : Occurrences(all, all[j]) = 1}}

RECURSIVE Cut(_, _), CutAll(_, _), CutGram(_, _)
CutAll(xs, u) == [i \in 1..Len(xs) |-> Cut(xs[i], u)]
CutGram(g, u) == [i \in 1..Len(g) |-> <<g[i][1], Cut(g[i][2], u)>>]
Cut(t, u) ==
  CASE t[1] = "S" -> IF t[2] \in u THEN <<"C", t>> ELSE t
    [] t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], CutAll(t[2], u)>>
    [] t[1] = "D" -> <<"D", Cut(t[2], u), Cut(t[3], u), t[4], t[5], t[6]>>
    [] t[1] \in {"Q"} -> <<"Q", Cut(t[2], u), t[3], t[4]>>
    [] t[1] = "N" -> <<"N", t[2], Cut(t[3], u)>>
    [] t[1] = "G" -> <<"G", Cut(t[2], u), CutGram(t[3], u)>>
    [] OTHER -> t
InsertCuts(g) == CutGram(g, Unique(g))

RECURSIVE NoCut(_), NoCutGram(_)
NoCutGram(g) == [i \in 1..Len(g) |-> <<g[i][1], NoCut(g[i][2])>>]
NoCut(t) ==
  CASE t[1] = "C" -> NoCut(t[2])
    [] t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], [i \in 1..Len(t[2]) |-> NoCut(t[2][i])]>>
    [] t[1] = "D" -> <<"D", NoCut(t[2]), NoCut(t[3]), t[4], t[5], t[6]>>
    [] t[1] = "Q" -> <<"Q", NoCut(t[2]), t[3], t[4]>>
    [] t[1] = "L" -> <<"L", NoCut(t[2])>>
    [] t[1] = "N" -> <<"N", t[2], NoCut(t[3])>>
    [] t[1] = "G" -> <<"G", NoCut(t[2]), NoCutGram(t[3])>>
    [] OTHER -> t

----------------------------------------------------------------------------
(* Precedence stacks: one rule per layer, @ becomes the next layer's rule.    *)
(* Commit points inside a stack are dropped.                                  *)

AtName == <<64>>
RECURSIVE NumCodes(_)
NumCodes(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NumCodes(n \div 10), 48 + (n % 10))
LayerName(r, i) == IF i = 1 THEN r ELSE r \o AtName \o NumCodes(i - 1)
RECURSIVE FlatRules(_)
FlatRules(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o FlatRules(Tail(xs))
Layers(r) ==
  LET xs == r[2][2] n == Len(xs) IN
  [i \in 1..n |-> <<LayerName(r[1], i),
                    Subst(NoCut(xs[i]), <<AtName>>, <<<<"R", LayerName(r[1], IF i = n THEN 1 ELSE i + 1)>>>>)>>]
ResolveStacks(g) ==
  SortRules(FlatRules([i \in 1..Len(g) |-> IF g[i][2][1] = "Stack" THEN Layers(g[i]) ELSE <<g[i]>>]))

\* A nested grammar has the wrapper of the grammar around it unless it defines
\* its own, so one that repeats it means the same.
WrapName == <<46, 119, 114, 97, 112, 82, 69>>
OwnWrap(g) == LET is == {i \in 1..Len(g) : g[i][1] = WrapName}
              IN IF is = {} THEN <<>> ELSE <<g[CHOOSE i \in is : TRUE][2]>>
RECURSIVE Inherit(_, _), InheritAll(_, _), InheritGram(_, _)
InheritAll(xs, w) == [i \in 1..Len(xs) |-> Inherit(xs[i], w)]
InheritGram(g, w) ==
  LET own == OwnWrap(g)
      g2 == IF own # <<>> /\ own = w THEN SelectSeq(g, LAMBDA r : r[1] # WrapName) ELSE g
      w2 == IF own = <<>> THEN w ELSE own
  IN [i \in 1..Len(g2) |-> <<g2[i][1], Inherit(g2[i][2], w2)>>]
Inherit(t, w) ==
  CASE t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], InheritAll(t[2], w)>>
    [] t[1] = "D" -> <<"D", Inherit(t[2], w), Inherit(t[3], w), t[4], t[5], t[6]>>
    [] t[1] = "Q" -> <<"Q", Inherit(t[2], w), t[3], t[4]>>
    [] t[1] \in {"L", "C"} -> <<t[1], Inherit(t[2], w)>>
    [] t[1] = "N" -> <<"N", t[2], Inherit(t[3], w)>>
    [] t[1] = "G" -> LET own == OwnWrap(t[3]) IN <<"G", Inherit(t[2], IF own = <<>> THEN w ELSE own), InheritGram(t[3], w)>>
    [] OTHER -> t
SameWrap(g) == InheritGram(g, <<>>)

\* the grammar a text denotes once macros are expanded
Meaning(in, t) == ExpandGram(DGram(in, t), Macros(in, t))
\* the rules the compiled parser reports
Compiled(in, t) == ResolveStacks(InsertCuts(Meaning(in, t)))
=============================================================================

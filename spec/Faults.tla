------------------------------- MODULE Faults -------------------------------
(* Which faults a grammar text has.  Faults are read off the concrete tree,   *)
(* because two texts of one meaning may differ in them (a name inside         *)
(* parentheses is not an item of the sequence around them).                   *)
EXTENDS Notation, FiniteSets

Scoped(t) == Tag(t) = "term" /\ \E i \in 1..Len(Odd(Kids(t))) : Kids(Kid(Odd(Kids(t))[i], 2)) # <<>>

\* nodes with a tag below t, outside terms that carry a nested grammar
RECURSIVE NodesOf(_, _), NodesIn(_, _)
NodesIn(ks, g) == IF ks = <<>> THEN <<>> ELSE NodesOf(Head(ks), g) \o NodesIn(Tail(ks), g)
NodesOf(t, g) == IF t[1] # "N" THEN <<>>
                 ELSE (IF t[2] = g THEN <<t>> ELSE <<>>) \o (IF Scoped(t) THEN <<>> ELSE NodesIn(t[4], g))

RuleNames(in, t) == LET ps == Prods(t) IN [i \in 1..Len(ps) |-> Txt(in, Kid(ps[i], 1))]
MacroNodes(t) == Pragmas(t, 1)
MacroName(in, m) == Txt(in, Kid(m, 2))
Params(in, m) == LET as == SelectSeq(Odd(Kids(Kid(m, 4))), LAMBDA a : Kids(a) # <<>>)
                 IN [i \in 1..Len(as) |-> Txt(in, Kid(as[i], 1))]
Range(s) == {s[i] : i \in 1..Len(s)}
Twice(s) == {s[i] : i \in {j \in 1..Len(s) : \E k \in 1..(j - 1) : s[k] = s[j]}}

\* faults of the terms below node t when the names in `known` are defined
ItemNames(in, s) == \* names given directly to the items of a sequence
  LET ks == SelectSeq(Kids(s), LAMBDA k : Kids(Kid(Kid(k, 1), 1)) # <<>>)
  IN [i \in 1..Len(ks) |-> Txt(in, Kid(Kid(Kid(Kid(ks[i], 1), 1), 1), 1))]
Args(m) == SelectSeq(Odd(Kids(Kid(m, 4))), LAMBDA a : Kids(a) # <<>>)
TermFaults(in, t, known, macros, badre) ==
  LET atoms == NodesOf(t, "atom")
      nameds == NodesOf(t, "named")
      quants == NodesOf(t, "quant")
      seqs == NodesOf(t, "term@2")
      atom(k) == {a \in Range(atoms) : Choice(a) = k}
      num(k) == IF Kids(k) = <<>> THEN 0 ELSE Decimal(Txt(in, Kid(k, 1)))
  IN {<<"unknown", Txt(in, Kid(a, 1))>> : a \in {a \in atom(0) : Txt(in, Kid(a, 1)) # <<64>> /\ Txt(in, Kid(a, 1)) \notin known \ {m[1] : m \in macros}}}
     \cup {<<"regex", Txt(in, Kid(a, 1))>> : a \in {a \in atom(2) : RegexCodes(Txt(in, Kid(a, 1))) \in badre}}
     \cup {<<"name", Txt(in, Kid(Kid(Kid(n, 1), 1), 1))>> :
             n \in {n \in Range(nameds) : Kids(Kid(n, 1)) # <<>> /\ Txt(in, Kid(Kid(Kid(n, 1), 1), 1)) \in known}}
     \cup {<<"minmax", Txt(in, Kid(Kid(Kid(q, 1), 2), 1))>> :
             q \in {q \in Range(quants) : Choice(q) = 1 /\ num(Kid(Kid(q, 1), 4)) # 0
                                         /\ num(Kid(Kid(q, 1), 2)) > num(Kid(Kid(q, 1), 4))}}
     \cup UNION {{<<"twice", n>> : n \in Twice(ItemNames(in, s))} : s \in Range(seqs)}
     \cup UNION {LET m == Kid(a, 1) n == Txt(in, Kid(m, 2)) IN
                 IF n \notin {x[1] : x \in macros} THEN {<<"notmacro", n>>}
                 ELSE IF <<n, Len(Args(m))>> \notin macros THEN {<<"args", n>>} ELSE {} : a \in atom(3)}

Faults(in, t, badres) ==
  LET ms == MacroNodes(t)
      names == RuleNames(in, t) \o [i \in 1..Len(ms) |-> MacroName(in, ms[i])]
      known == Range(names)
      macros == {<<MacroName(in, ms[i]), Len(Params(in, ms[i]))>> : i \in 1..Len(ms)}
      bad == Range(badres)
      ofMacro(m) == LET ps == Params(in, m) IN
        {<<"param", p>> : p \in {p \in Range(ps) : p \in known} \cup Twice(ps)}
        \cup TermFaults(in, Kid(m, 7), known \cup Range(ps), macros, bad)
  IN IF Twice(names) # {} THEN {<<"duplicate", n>> : n \in Twice(names)}
     ELSE UNION {TermFaults(in, Prods(t)[i], known, macros, bad) : i \in 1..Len(Prods(t))}
          \cup UNION {ofMacro(ms[i]) : i \in 1..Len(ms)}

----------------------------------------------------------------------------
(* Left recursion, on denoted terms *)

\* <<rules reached before any required term, may the term match nothing as
\* written>> when the rules N may match nothing
RECURSIVE Reach(_, _), ReachSeq(_, _, _), AllRefs(_)
ReachSeq(xs, acc, N) ==
  IF xs = <<>> THEN <<acc, TRUE>>
  ELSE LET r == Reach(Head(xs), N) IN
       IF r[2] THEN ReachSeq(Tail(xs), acc \cup r[1], N) ELSE <<acc \cup r[1], FALSE>>
Reach(t, N) ==
  CASE t[1] = "R" -> <<{t[2]}, t[2] \in N>>
    [] t[1] = "Seq" -> IF t[2] = <<>> THEN <<{}, FALSE>> ELSE ReachSeq(t[2], {}, N)
    [] t[1] = "Oneof" -> LET rs == {Reach(t[2][i], N) : i \in 1..Len(t[2])} IN
                         <<UNION {r[1] : r \in rs}, \E r \in rs : r[2]>>
    [] t[1] = "Stack" -> <<{}, FALSE>>
    [] t[1] = "Q" -> IF t[3] = 0 THEN <<Reach(t[2], N)[1], TRUE>> ELSE <<{}, FALSE>>
    [] t[1] = "N" -> Reach(t[3], N)
    [] OTHER -> <<{}, FALSE>>

AllRefs(t) ==
  LET kids == CASE t[1] \in {"Seq", "Oneof", "Stack"} -> t[2]
                [] t[1] = "D" -> <<t[2], t[3]>>
                [] t[1] \in {"Q", "L", "C", "G"} -> <<t[2]>>
                [] t[1] = "N" -> <<t[3]>>
                [] t[1] = "M" -> t[3]
                [] OTHER -> <<>>
  IN (IF t[1] = "R" THEN {t[2]} ELSE {}) \cup UNION {AllRefs(kids[i]) : i \in 1..Len(kids)}

\* rules on a cycle of the graph E (a function from names to sets of names)
RECURSIVE Close(_, _)
Close(E, S) == LET S2 == S \cup UNION {E[x] : x \in S} IN IF S2 = S THEN S ELSE Close(E, S2)
OnCycle(E) == {x \in DOMAIN E : x \in Close(E, E[x])}
Graph(g, F(_)) ==
  LET names == {g[i][1] : i \in 1..Len(g)}
      body(n) == g[CHOOSE i \in 1..Len(g) : g[i][1] = n][2]
  IN [n \in names |-> F(body(n)) \cap names]
RECURSIVE MayBeEmpty(_, _)
MayBeEmpty(g, N) == LET N2 == {g[i][1] : i \in {j \in 1..Len(g) : Reach(g[j][2], N)[2]}}
                    IN IF N2 = N THEN N ELSE MayBeEmpty(g, N2)
CycleRules(in, t) ==
  LET g == DGram(in, t) N == MayBeEmpty(g, {}) First1(x) == Reach(x, N)[1]
  IN OnCycle(Graph(g, First1))
MaybeCyclic(in, t) == OnCycle(Graph(DGram(in, t), AllRefs)) # {}
=============================================================================

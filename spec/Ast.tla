-------------------------------- MODULE Ast ---------------------------------
(* What becomes of a parse tree: conversion to an AST, conversion back, and   *)
(* unparsing, as functions of grammar and tree.                               *)
(*                                                                            *)
(* An AST node is <<"B", branch>>, <<"L", from, to>> or <<"X", kind, value>>; *)
(* a branch maps names to <<"one", <<node>>>> or <<"many", nodes>>.           *)
(* Conversion walks the grammar as written (no rule is looked through), so a  *)
(* control here is Engine's, without virtual parts and without Norm.          *)
EXTENDS Engine, FiniteSets

NoB == [x \in {} |-> <<"one", <<>>>>]
Br(b) == <<"B", b>>
Xt(kind, v) == <<"X", kind, v>>

RECURSIVE Body(_, _, _)
Body(cs, r, env) ==
  IF HasRule(cs, env, r) THEN
    LET id == cs.G[env].rules[r] t == cs.T[id] IN
    IF t.k = "Stack" THEN Ctl(t.xs[1], r, env, <<r, 1, Len(t.xs)>>) ELSE Ctl(id, r, env, <<r>>)
  ELSE Body(cs, r, cs.G[env].par)
\* the body a rule reference stands for; nm is the label of its trees
RefBody(cs, c) ==
  LET t == cs.T[c.t] IN
  IF t.r = "@" THEN
    LET nx == IF c.at[2] = c.at[3] THEN 1 ELSE c.at[2] + 1
        stk == cs.T[cs.G[c.env].rules[c.at[1]]]
    IN Ctl(stk.xs[nx], LayerTag(c.at[1], nx), c.env, <<c.at[1], nx, c.at[3]>>)
  ELSE Body(cs, t.r, c.env)
\* the name children parsed by a rule reference are stored under
NameOf(cs, c) == IF cs.T[c.t].r = "@" THEN c.at[1] ELSE cs.T[c.t].r
In(cs, c, t) == [c EXCEPT !.t = t]
Nest(cs, c) == [c EXCEPT !.t = cs.T[c.t].t, !.env = cs.T[c.t].g, !.at = <<>>]

\* labels of layers are those of the stack with a suffix
StackOf(tag, cs) ==
  LET ns == {<<e, r>> \in UNION {{<<e, r>> : r \in DOMAIN cs.G[e].rules} : e \in 1..Len(cs.G)} :
               /\ cs.T[cs.G[e].rules[r]].k = "Stack"
               /\ \E i \in 2..Len(cs.T[cs.G[e].rules[r]].xs) : tag = LayerTag(r, i)}
  IN IF ns = {} THEN tag ELSE (CHOOSE x \in ns : TRUE)[2]

----------------------------------------------------------------------------
(* How often a body can contain a name: 0, 1 or 2 (many)                      *)

Cap(n) == IF n > 2 THEN 2 ELSE n
RECURSIVE Most(_, _, _), MostSum(_, _, _, _), MostMax(_, _, _, _)
MostSum(cs, c, xs, nm) == IF xs = <<>> THEN 0 ELSE Most(cs, In(cs, c, Head(xs)), nm) + MostSum(cs, c, Tail(xs), nm)
MostMax(cs, c, xs, nm) ==
  IF xs = <<>> THEN 0
  ELSE LET a == Most(cs, In(cs, c, Head(xs)), nm) b == MostMax(cs, c, Tail(xs), nm) IN IF a > b THEN a ELSE b
Most(cs, c, nm) ==
  LET t == cs.T[c.t] IN
  CASE t.k \in {"S", "RE"} -> IF nm = "" THEN 1 ELSE 0
    [] t.k = "R" -> IF NameOf(cs, c) = nm THEN 1 ELSE 0
    [] t.k = "X" -> IF t.r = nm THEN 1 ELSE 0
    [] t.k = "N" -> IF t.nm = nm THEN 1 ELSE 0
    [] t.k = "REF" -> IF t.r = nm THEN 2 ELSE 0
    [] t.k = "Seq" -> Cap(MostSum(cs, c, t.xs, nm))
    [] t.k = "Oneof" -> MostMax(cs, c, t.xs, nm)
    [] t.k = "D" -> Cap(2 * Most(cs, In(cs, c, t.t), nm) + 2 * Most(cs, In(cs, c, t.s), nm)
                        + (IF t.assoc # 0 /\ nm = ":" THEN 1 ELSE 0))
    [] t.k = "Q" -> Cap((IF t.mx = 0 THEN 2 ELSE t.mx) * Most(cs, In(cs, c, t.t), nm))
    [] t.k = "G" -> Cap(2 * Most(cs, Nest(cs, c), nm))
    [] t.k \in {"C", "L"} -> Most(cs, In(cs, c, t.t), nm)

----------------------------------------------------------------------------
(* Tree to AST                                                                *)

Put(b, nm, many, node) ==
  IF nm \in DOMAIN b THEN [b EXCEPT ![nm] = <<"many", Append(@[2], node)>>]
  ELSE (nm :> IF many THEN <<"many", <<node>>>> ELSE <<"one", <<node>>>>) @@ b

IsChain(kid, e) == kid[1] = "N" /\ kid[2] = e[2] /\ kid[3] = e[3]

\* ms is the body whose counts decide between one and many
RECURSIVE Conv(_, _, _, _, _), ConvSeq(_, _, _, _, _, _), ConvRep(_, _, _, _, _), ConvDelim(_, _, _, _, _, _), ConvRef(_, _, _, _, _)
Fresh1(cs, c, e) == Conv(cs, c, e, NoB, c)
ConvSeq(cs, c, es, i, b, ms) ==
  IF i > Len(es) THEN b
  ELSE ConvSeq(cs, c, es, i + 1, Conv(cs, In(cs, c, cs.T[c.t].xs[i]), es[i], b, ms), ms)
ConvRep(cs, c, es, b, ms) ==
  IF es = <<>> THEN b ELSE ConvRep(cs, c, Tail(es), Conv(cs, c, Head(es), b, ms), ms)
ConvDelim(cs, c, e, i, b, ms) ==
  IF i > Len(e[4]) THEN b
  ELSE LET t == cs.T[c.t] kid == e[4][i]
           chain == IF e[3][2] > 0 THEN i = 1 ELSE IF e[3][2] < 0 THEN i = Len(e[4]) ELSE FALSE
           nm == StackOf(e[2], cs)
           b1 == IF kid[1] = "E" THEN Put(b, "@empty", TRUE, Xt("empty", IF i = 1 THEN "@prefix" ELSE "@suffix"))
                 ELSE IF chain /\ IsChain(kid, e)
                 THEN Put(b, nm, IF nm # ":" /\ Most(cs, ms, nm) > 0 THEN TRUE ELSE Most(cs, ms, ":") > 1,
                          Br(Fresh1(cs, c, kid)))
                 ELSE Conv(cs, In(cs, c, IF i % 2 = 1 THEN t.t ELSE t.s), kid, b, ms)
       IN ConvDelim(cs, c, e, i + 1, b1, ms)
ConvRef(cs, nm, e, b, ms) ==
  LET Kid[i \in 0..Len(e[4])] == IF i = 0 THEN NoB ELSE ConvRef(cs, nm, e[4][i], Kid[i - 1], ms) IN
  IF e[1] = "L" THEN Put(b, nm, TRUE, e)
  ELSE IF e[1] = "N" THEN Put(b, nm, TRUE, Br(Kid[Len(e[4])]))
  ELSE b
Conv(cs, c, e, b, ms) ==
  LET t == cs.T[c.t] IN
  CASE t.k \in {"S", "RE"} -> Put(b, "", Most(cs, ms, "") > 1, e)
    [] t.k = "R" -> Put(b, NameOf(cs, c), Most(cs, ms, NameOf(cs, c)) > 1, Br(Fresh1(cs, RefBody(cs, c), e)))
    [] t.k = "N" -> Put(b, t.nm, Most(cs, ms, t.nm) > 1, Br(Fresh1(cs, In(cs, c, t.t), e)))
    [] t.k = "G" -> Conv(cs, Nest(cs, c), e, b, ms)
    [] t.k = "C" -> Conv(cs, In(cs, c, t.t), e, b, ms)
    [] t.k = "Seq" -> ConvSeq(cs, c, e[4], 1, b, ms)
    [] t.k = "Oneof" -> Conv(cs, In(cs, c, t.xs[e[3][2] + 1]), e[4][1],
                             Put(b, "@choice", TRUE, Xt("choice", ToString(e[3][2]))), ms)
    [] t.k \in {"Q", "L"} -> ConvRep(cs, In(cs, c, t.t), e[4], b, ms)
    [] t.k = "D" -> ConvDelim(cs, c, e, 1, b, ms)
    [] t.k = "REF" -> ConvRef(cs, t.r, e, b, ms)
    [] t.k = "X" -> IF e[1] = "N" /\ e[3][1] = "b"
                    THEN Put(b, t.r, Most(cs, ms, t.r) > 1, Br("" :> <<"one", <<Lf(e[3][2], e[3][3])>>>>))
                    ELSE b

\* A tree can be converted when it is a token or labelled with the rule it was
\* parsed by.
Convertible(rule, tree) == tree[1] = "L" \/ (tree[1] = "N" /\ tree[2] = rule)
ToAst(cs, rule, tree) ==
  IF tree[1] = "L" THEN Br("" :> <<"one", <<tree>>>>)
  ELSE LET b == Body(cs, rule, 1)
       IN Br(Conv(cs, b, tree, "@rule" :> <<"one", <<Xt("rule", rule)>>>>, b))

\* tokens of an AST, in no particular order
RECURSIVE AstTokens(_), NodesTokens(_)
NodesTokens(ns) == IF ns = <<>> THEN <<>> ELSE AstTokens(Head(ns)) \o NodesTokens(Tail(ns))
AstTokens(n) ==
  CASE n[1] = "L" -> <<<<n[2], n[3]>>>>
    [] n[1] = "X" -> <<>>
    [] n[1] = "B" ->
        LET Rec[S \in SUBSET (DOMAIN n[2])] ==
              IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN NodesTokens(n[2][x][2]) \o Rec[S \ {x}]
        IN Rec[DOMAIN n[2]]
SameBag(xs, ys) ==
  /\ Len(xs) = Len(ys)
  /\ \A i \in 1..Len(xs) : Cardinality({j \in 1..Len(xs) : xs[j] = xs[i]}) = Cardinality({j \in 1..Len(ys) : ys[j] = xs[i]})
\* tokens directly under a name are in source order
RECURSIVE InOrder(_)
InOrder(n) ==
  n[1] = "B" =>
    \A x \in DOMAIN n[2] :
      LET ns == n[2][x][2] IN
      /\ \A i \in 1..Len(ns) : InOrder(ns[i])
      /\ \A i, j \in 1..Len(ns) : (i < j /\ ns[i][1] = "L" /\ ns[j][1] = "L") => ns[i][3] <= ns[j][2]

----------------------------------------------------------------------------
(* AST to tree.  A result is [t (a sequence: none or the tree), b (branch)]   *)

Take(b, nm) ==
  IF nm \notin DOMAIN b THEN [t |-> <<>>, b |-> b]
  ELSE LET ns == b[nm][2] IN
       [t |-> <<ns[1]>>,
        b |-> IF Len(ns) > 1 THEN [b EXCEPT ![nm] = <<@[1], Tail(ns)>>]
              ELSE [x \in DOMAIN b \ {nm} |-> b[x]]]
Label(nm, r) == IF r = <<>> \/ r[1][1] # "N" THEN r ELSE <<[r[1] EXCEPT ![2] = nm]>>
\* is a tree of this term labelled by a name inside the term?  A rule that is
\* only another name for a rule of its grammar labels trees itself.
RECURSIVE OwnLabel(_, _), RuleOwnLabel(_, _)
OwnLabel(cs, c) ==
  CASE cs.T[c.t].k \in {"R", "N"} -> TRUE
    [] cs.T[c.t].k = "C" -> OwnLabel(cs, In(cs, c, cs.T[c.t].t))
    [] cs.T[c.t].k = "G" -> OwnLabel(cs, Nest(cs, c))
    [] OTHER -> FALSE
\* inside a precedence stack commit points do not exist
RuleOwnLabel(cs, c) ==
  IF cs.T[c.t].k = "R"
  THEN (cs.T[c.t].r # "@" /\ ~HasRule(cs, c.env, cs.T[c.t].r)) \/ RuleOwnLabel(cs, RefBody(cs, c))
  ELSE IF cs.T[c.t].k = "C" /\ Len(c.at) = 3 THEN RuleOwnLabel(cs, In(cs, c, cs.T[c.t].t))
  ELSE OwnLabel(cs, c)

RECURSIVE Back(_, _, _), BackSeq(_, _, _, _, _), BackRep(_, _, _, _, _), BackDelim(_, _, _, _, _)
None(b) == [t |-> <<>>, b |-> b]
BackSeq(cs, c, i, b, acc) ==
  LET t == cs.T[c.t] IN
  IF i > Len(t.xs) THEN [t |-> <<Nd("_", NoX, acc)>>, b |-> b]
  ELSE LET r == Back(cs, In(cs, c, t.xs[i]), b) IN
       IF r.t = <<>> THEN None(r.b) ELSE BackSeq(cs, c, i + 1, r.b, Append(acc, r.t[1]))
BackRep(cs, c, mx, b, acc) ==
  IF mx > 0 /\ Len(acc) = mx THEN [t |-> acc, b |-> b]
  ELSE LET r == Back(cs, c, b) IN
       IF r.t = <<>> THEN [t |-> acc, b |-> r.b] ELSE BackRep(cs, c, mx, r.b, Append(acc, r.t[1]))
BackDelim(cs, c, i, b, acc) ==
  LET t == cs.T[c.t] r == Back(cs, In(cs, c, IF i % 2 = 1 THEN t.t ELSE t.s), b) IN
  IF r.t = <<>> THEN [t |-> acc, b |-> r.b] ELSE BackDelim(cs, c, i + 1, r.b, Append(acc, r.t[1]))
Back(cs, c, b) ==
  LET t == cs.T[c.t] IN
  CASE t.k \in {"S", "RE"} -> Take(b, "")
    [] t.k = "R" ->
        LET p == Take(b, NameOf(cs, c)) body == RefBody(cs, c) IN
        IF p.t = <<>> THEN p
        ELSE LET r == Back(cs, body, p.t[1][2]).t
             IN [t |-> IF RuleOwnLabel(cs, body) THEN r ELSE Label(body.nm, r), b |-> p.b]
    [] t.k = "N" ->
        LET p == Take(b, t.nm) IN
        IF p.t = <<>> THEN p
        ELSE LET r == Back(cs, In(cs, c, t.t), p.t[1][2]).t
             IN [t |-> IF OwnLabel(cs, In(cs, c, t.t)) THEN r ELSE Label(t.nm, r), b |-> p.b]
    [] t.k = "G" -> Back(cs, Nest(cs, c), b)
    [] t.k = "C" -> Back(cs, In(cs, c, t.t), b)
    [] t.k = "Seq" -> BackSeq(cs, c, 1, b, <<>>)
    [] t.k = "Oneof" ->
        LET p == Take(b, "@choice") IN
        IF p.t = <<>> THEN p
        ELSE LET i == CHOOSE i \in 1..Len(t.xs) : p.t[1][3] = ToString(i - 1)
                 r == Back(cs, In(cs, c, t.xs[i]), p.b)
             IN [t |-> <<Nd("|", <<"c", i - 1>>, r.t)>>, b |-> r.b]
    [] t.k = "Q" ->
        LET r == BackRep(cs, In(cs, c, t.t), t.mx, b, <<>>) IN
        IF Len(r.t) < t.mn THEN None(r.b) ELSE [t |-> <<Nd("?", NoX, r.t)>>, b |-> r.b]
    [] t.k = "D" ->
        LET r == BackDelim(cs, c, 1, b, <<>>) IN
        IF r.t = <<>> THEN None(r.b) ELSE [t |-> <<Nd(":", <<"a", 0>>, r.t)>>, b |-> r.b]
FromAst(cs, rule, node) == Label(rule, Back(cs, Body(cs, rule, 1), node[2]).t)

\* The class of bodies that can be converted back.  `at` names the stack.
RECURSIVE Pulled(_, _, _), Firm(_, _), Sound(_, _, _, _, _)
Pulled(cs, id, stk) ==
  LET t == cs.T[id] IN
  CASE t.k \in {"S", "RE"} -> {""}
    [] t.k = "R" -> {IF t.r = "@" THEN stk ELSE t.r}
    [] t.k = "N" -> {t.nm}
    [] t.k = "Oneof" -> {"@choice"} \cup UNION {Pulled(cs, t.xs[i], stk) : i \in 1..Len(t.xs)}
    [] t.k = "Seq" -> UNION {Pulled(cs, t.xs[i], stk) : i \in 1..Len(t.xs)}
    [] t.k = "D" -> Pulled(cs, t.t, stk) \cup Pulled(cs, t.s, stk)
    [] t.k \in {"Q", "C", "G"} -> Pulled(cs, t.t, stk)
    [] OTHER -> {}
\* takes something whenever it was there, and can tell that it was not
Firm(cs, id) ==
  LET t == cs.T[id] IN
  CASE t.k \in {"S", "RE", "R", "N", "Oneof"} -> TRUE
    [] t.k = "Seq" -> \E i \in 1..Len(t.xs) : Firm(cs, t.xs[i])
    [] t.k = "Q" -> t.mn > 0 /\ Firm(cs, t.t)
    [] t.k \in {"D", "C", "G"} -> Firm(cs, t.t)
    [] OTHER -> FALSE
Sound(cs, id, stk, others, loop) ==
  LET t == cs.T[id] IN
  CASE t.k \in {"S", "RE", "R", "N"} -> TRUE
    [] t.k = "Seq" -> \A i \in 1..Len(t.xs) :
          Sound(cs, t.xs[i], stk, others \cup UNION {Pulled(cs, t.xs[j], stk) : j \in (1..Len(t.xs)) \ {i}}, loop)
    [] t.k = "Oneof" -> \A i \in 1..Len(t.xs) : Sound(cs, t.xs[i], stk, others, loop)
    [] t.k = "Q" ->
          /\ Firm(cs, t.t)
          /\ (t.mn > 0 /\ t.mn = t.mx) \/ ~loop
          /\ Pulled(cs, t.t, stk) \cap others = {}
          /\ Sound(cs, t.t, stk, others, loop \/ t.mx # 1)
    [] t.k = "D" ->
          /\ t.assoc = 0 /\ ~t.lead /\ ~t.trail /\ ~loop
          /\ Firm(cs, t.t) /\ Firm(cs, t.s)
          /\ Pulled(cs, id, stk) \cap others = {}
          /\ Sound(cs, t.t, stk, others \cup Pulled(cs, t.s, stk), TRUE)
          /\ Sound(cs, t.s, stk, others \cup Pulled(cs, t.t, stk), TRUE)
    [] t.k \in {"C", "G"} -> Sound(cs, t.t, stk, others, loop)
    [] OTHER -> FALSE
\* all bodies below a term: its own and those of named terms in it
RECURSIVE NamedIn(_, _)
NamedIn(cs, id) ==
  LET t == cs.T[id] IN
  CASE t.k = "N" -> {t.t} \cup NamedIn(cs, t.t)
    [] t.k \in {"Seq", "Oneof"} -> UNION {NamedIn(cs, t.xs[i]) : i \in 1..Len(t.xs)}
    [] t.k = "D" -> NamedIn(cs, t.t) \cup NamedIn(cs, t.s)
    [] t.k \in {"Q", "C", "G", "L"} -> NamedIn(cs, t.t)
    [] OTHER -> {}
BodySound(cs, id, stk) == \A b \in {id} \cup NamedIn(cs, id) : Sound(cs, b, stk, {}, FALSE)
Reversible(cs) ==
  \A e \in 1..Len(cs.G) : \A r \in DOMAIN cs.G[e].rules :
    r # ".wrapRE" =>
      LET id == cs.G[e].rules[r] t == cs.T[id] IN
      IF t.k = "Stack" THEN \A i \in 1..Len(t.xs) : BodySound(cs, t.xs[i], r) ELSE BodySound(cs, id, "")

----------------------------------------------------------------------------
(* Unparsing                                                                  *)

RECURSIVE Flat(_, _)
Flat(in, toks) == IF toks = <<>> THEN <<>> ELSE SubSeq(in, Head(toks)[1] + 1, Head(toks)[2]) \o Flat(in, Tail(toks))
Unparsed(in, tree) == Flat(in, Tokens(tree))
ByteLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_)
Bytes(xs) == IF xs = <<>> THEN 0 ELSE ByteLen(Head(xs)) + Bytes(Tail(xs))

RECURSIVE NoGroups(_)
NoGroups(re) ==
  CASE re.o = "grp" -> FALSE
    [] re.o = "rep" -> NoGroups(re.x)
    [] re.o \in {"cat", "alt"} -> \A i \in 1..Len(re.xs) : NoGroups(re.xs[i])
    [] OTHER -> TRUE
\* nothing of the input is dropped: no wrappers, no parts of regexes
Lossless(cs) ==
  /\ \A e \in 1..Len(cs.G) : cs.G[e].wrap = <<>>
  /\ \A i \in 1..Len(cs.T) : cs.T[i].k = "RE" => NoGroups(cs.T[i].re)
  /\ \A i \in 1..Len(cs.T) : cs.T[i].k \notin {"L", "X", "REF"}
=============================================================================

-------------------------------- MODULE Show ---------------------------------
(* What can be seen of an AST: its printed form, its children by name, and    *)
(* whether it has the content of another one; and what the command line's     *)
(* test of a grammar shows.  A run parses `in`, and in2 if there is one, by   *)
(* the same rule.  cmp: print  query  equal  view  cli                        *)
EXTENDS Ast, Json, IOUtils, CSV
Dr == INSTANCE Draw

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS

\* asts: of the first and of the second input, <<>> where that does not match
VARIABLES ci, ri, st, ph, asts
vars == <<ci, ri, st, ph, asts>>
cs == Cases[ci]
rn == Cases[ci].runs[ri]
MaxSteps == IF "max" \in DOMAIN cs THEN cs.max ELSE 9000
Has(x) == \E i \in 1..Len(cs.cmp) : cs.cmp[i] = x

----------------------------------------------------------------------------
(* Printing, in code points                                                   *)

RECURSIVE Before(_, _), Dec(_), Join(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before(Tail(a), Tail(b))
Dec(n) == (IF n > 9 THEN Dec(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Mapped(s, F(_)) == LET RECURSIVE go(_, _)
                     go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc \o F(s[i]))
                 IN go(1, <<>>)
NL == <<10>>
Indent(s) == LET f(x) == IF x = 10 THEN <<10, 32, 32>> ELSE <<x>> IN Mapped(s, f)

Special(s) == \E i \in 1..Len(s) : s[i] < 32 \/ s[i] = 127 \/ s[i] \in {58, 44, 39, 96, 40, 41, 123, 125, 91, 93}
Quoted(s) ==
  LET f(x) == CASE x = 34 -> <<92, 34>> [] x = 92 -> <<92, 92>> [] x = 10 -> <<92, 110>> [] x = 9 -> <<92, 116>>
                [] x = 13 -> <<92, 114>> [] x = 7 -> <<92, 97>> [] x = 8 -> <<92, 98>> [] x = 12 -> <<92, 102>> [] x = 11 -> <<92, 118>>
                [] x < 32 \/ x = 127 -> <<92, 120, Hex(x \div 16), Hex(x % 16)>>
                [] OTHER -> <<x>>
  IN <<34>> \o Mapped(s, f) \o <<34>>
LeafText(in, n) ==
  LET s == SubSeq(in, n[2] + 1, n[3]) IN
  Dec(Bytes(SubSeq(in, 1, n[2]))) \o <<8227>> \o
  (IF Special(s) THEN Quoted(s) ELSE IF \E i \in 1..Len(s) : s[i] = 34 THEN <<96>> \o s \o <<96>> ELSE s)

\* names of a branch in byte order
Names(b) == LET D == DOMAIN b IN
  [i \in 1..Cardinality(D) |-> CHOOSE x \in D : Cardinality({y \in D : Before(cs.nm[y], cs.nm[x])}) = i - 1]

RECURSIVE Narrow(_)
NarrowGroup(g) == IF g[1] = "one" THEN Narrow(g[2][1]) ELSE Len(g[2]) = 0 \/ (Len(g[2]) = 1 /\ Narrow(g[2][1]))
Narrow(n) == IF n[1] # "B" THEN TRUE
             ELSE LET D == DOMAIN n[2] IN D = {} \/ (Cardinality(D) = 1 /\ \A x \in D : NarrowGroup(n[2][x]))

RECURSIVE Text1(_, _), GroupText(_, _)
GroupText(in, g) ==
  IF g[1] = "one" THEN Text1(in, g[2][1]) ELSE
  LET xs == g[2]
      wide == Len(xs) > 1 /\ \E i \in 1..Len(xs) : ~Narrow(xs[i])
      ps == [i \in 1..Len(xs) |-> IF wide THEN Indent(Text1(in, xs[i])) ELSE Text1(in, xs[i])]
  IN IF wide THEN <<91, 10, 32, 32>> \o Join(ps, <<44, 10, 32, 32>>) \o <<44, 10, 93>>
     ELSE <<91>> \o Join(ps, <<44, 32>>) \o <<93>>
Text1(in, n) ==
  CASE n[1] = "L" -> LeafText(in, n)
    [] n[1] = "X" -> cs.nm[n[3]]
    [] OTHER ->
       LET ns == Names(n[2])
           many == Len(ns) > 1
           item(i) == LET s == GroupText(in, n[2][ns[i]]) IN
                      (IF ns[i] = "" THEN <<39, 39>> ELSE cs.nm[ns[i]]) \o <<58, 32>> \o (IF many THEN Indent(s) ELSE s)
           items == [i \in 1..Len(ns) |-> item(i)]
       IN <<40>> \o (IF many THEN <<10, 32, 32>> ELSE <<>>) \o Join(items, <<44, 10, 32, 32>>) \o (IF many THEN <<44, 10>> ELSE <<>>) \o <<41>>

----------------------------------------------------------------------------
(* The view: an AST drawn as a tree.  Names that start with @ are left out,   *)
(* tokens stand alone, and a node of one child that has one child itself is   *)
(* one with that, whose text goes on with the first name that is another one. *)
(* A view is <<names of the line, items>>.                                    *)

Dots == <<46, 46, 46>>
Arrow == <<32, 8227, 32>>
Goes(name, line) ==
  LET new == {i \in 1..Len(line) : line[i] # Dots /\ line[i] # name}
      i == CHOOSE x \in new : \A y \in new : x <= y
  IN IF new = {} THEN <<name>> ELSE <<name>> \o (IF i > 1 THEN <<Dots>> ELSE <<>>) \o SubSeq(line, i, Len(line))
RECURSIVE ViewOf(_, _, _), Tree(_)
Tree(v) == <<Join(v[1], Arrow), [i \in 1..Len(v[2]) |-> Tree(v[2][i])]>>
Shown(b) == LET ns == Names(b) f(x) == cs.nm[x] = <<>> \/ cs.nm[x][1] # 64 IN SelectSeq(ns, f)
ViewItems(in, b) ==
  LET ns == Shown(b)
      of(x) == [k \in 1..Len(b[x][2]) |-> ViewOf(in, cs.nm[x], b[x][2][k])]
      RECURSIVE go(_)
      go(i) == IF i > Len(ns) THEN <<>> ELSE of(ns[i]) \o go(i + 1)
  IN go(1)
Sorted(vs) == LET ps == Dr!InPlace([i \in 1..Len(vs) |-> <<Dr!Place(Tree(vs[i])), vs[i]>>]) IN [i \in 1..Len(ps) |-> ps[i][2]]
ViewOf(in, name, n) ==
  CASE n[1] = "L" -> << <<LeafText(in, n)>>, <<>> >>
    [] n[1] = "X" -> << <<name>>, << << <<cs.nm[n[3]]>>, <<>> >> >> >>
    [] OTHER -> LET vs == ViewItems(in, n[2]) IN
                IF Len(vs) = 1 /\ Len(vs[1][2]) = 1 THEN <<Goes(name, vs[1][1]), vs[1][2]>>
                ELSE << <<name>>, Sorted(vs)>>
View(in, name, n) == Dr!Drawn(Tree(ViewOf(in, name, n)))

\* the leaves of the view are the tokens, those under names with @ aside
RECURSIVE Bottom(_), Visible(_, _)
Bottom(v) == IF v[2] = <<>> THEN (IF Dr!Digit((v[1][1] \o <<0>>)[1]) THEN <<v[1][1]>> ELSE <<>>)
             ELSE LET RECURSIVE go(_)
                      go(i) == IF i > Len(v[2]) THEN <<>> ELSE Bottom(v[2][i]) \o go(i + 1)
                  IN go(1)
Visible(in, n) ==
  CASE n[1] = "L" -> <<LeafText(in, n)>>
    [] n[1] = "X" -> <<>>
    [] OTHER -> LET ns == Shown(n[2])
                    RECURSIVE go(_, _)
                    go(i, k) == IF i > Len(ns) THEN <<>>
                                ELSE IF k > Len(n[2][ns[i]][2]) THEN go(i + 1, 1)
                                ELSE Visible(in, n[2][ns[i]][2][k]) \o go(i, k + 1)
                IN go(1, 1)

----------------------------------------------------------------------------
(* Content: everything but the places of the tokens                           *)

RECURSIVE Same(_, _, _, _)
Same(i1, a, i2, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "L" -> SubSeq(i1, a[2] + 1, a[3]) = SubSeq(i2, b[2] + 1, b[3])
         [] a[1] = "X" -> a = b
         [] OTHER -> /\ DOMAIN a[2] = DOMAIN b[2]
                     /\ \A x \in DOMAIN a[2] :
                          /\ a[2][x][1] = b[2][x][1] /\ Len(a[2][x][2]) = Len(b[2][x][2])
                          /\ \A k \in 1..Len(a[2][x][2]) : Same(i1, a[2][x][2][k], i2, b[2][x][2][k])

\* a query asks the root for a name: one, many, first, all; and for the option taken
Kids1(n, x) == IF x \in DOMAIN n[2] THEN n[2][x][2] ELSE <<>>
Kind1(n, x) == IF x \in DOMAIN n[2] THEN n[2][x][1] ELSE ""
QueryOk(n, q) ==
  LET ks == Kids1(n, q.name) IN
  /\ q.all = ks
  /\ q.first = (IF ks = <<>> THEN <<>> ELSE <<ks[1]>>)
  /\ q.one = (IF Kind1(n, q.name) = "one" THEN ks ELSE <<>>)
  /\ q.many = (IF Kind1(n, q.name) = "many" THEN ks ELSE <<>>)
  \* of the names zz, q.name and q.other the first that the node has
  /\ q.which = (IF q.name \in DOMAIN n[2] THEN <<q.name>> ELSE IF q.other \in DOMAIN n[2] THEN <<q.other>> ELSE <<>>)
ChoiceOf(n) == LET ks == Kids1(n, "@choice") IN IF ks = <<>> THEN "-1" ELSE ks[1][3]

----------------------------------------------------------------------------
(* Behaviour                                                                  *)

Two == "in2" \in DOMAIN rn
Init == /\ ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs)
        /\ st = Start(Cases[ci], Cases[ci].runs[ri])
        /\ ph = "one" /\ asts = <<>>
Input == IF ph = "two" THEN [rn EXCEPT !.in = rn.in2] ELSE rn
Running == ph \in {"one", "two"}
Run == /\ Running /\ st.mode # "done" /\ st.n < MaxSteps
       /\ st' = Step(cs, Input, st) /\ UNCHANGED <<ci, ri, ph, asts>>

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m, n |-> st.n])>>, OutFile)
End(v, m) == ph' = "end" /\ Verdict(v, m) /\ UNCHANGED <<ci, ri, st, asts>>
TooLong == Running /\ st.mode # "done" /\ st.n >= MaxSteps /\ End("long", [o |-> "long"])

Matched(m) == m.o \in {"ok", "rest"}
AstOf(m) == IF Matched(m) /\ Convertible(rn.rule, m.t) THEN <<ToAst(cs, rn.rule, m.t)>> ELSE <<>>
\* an outcome on which the code differs is the business of other properties
Ended ==
  /\ Running /\ st.mode = "done"
  /\ LET m == Outcome(Input, st)
         a == AstOf(m) IN
     IF Has("cli") THEN ph' = "cli" /\ asts' = <<[m |-> m, a |-> a]>> /\ UNCHANGED <<ci, ri, st>>
     ELSE LET o == IF ph = "one" THEN rn.obs.ast ELSE rn.obs.ast2 IN
     IF a = <<>> \/ <<o>> # a THEN End("ok", [o |-> "other"])
     ELSE IF ph = "one" /\ Two
          THEN /\ ph' = "two" /\ asts' = <<a[1]>> /\ st' = Start(cs, [rn EXCEPT !.in = rn.in2])
               /\ UNCHANGED <<ci, ri>>
          ELSE /\ ph' = "look" /\ asts' = Append(asts, a[1]) /\ UNCHANGED <<ci, ri, st>>
Look ==
  /\ ph = "look"
  /\ LET a == asts[1]
         pr == Text1(rn.in, a)
         eq == IF Len(asts) = 2 THEN Same(rn.in, a, rn.in2, asts[2]) ELSE TRUE
     IN IF Has("print") /\ rn.obs.show # pr THEN End("bad", [o |-> "print", show |-> pr])
        ELSE IF Has("view") /\ \E i \in 1..Len(rn.obs.views) : rn.obs.views[i] # View(rn.in, cs.nm[rn.rule], a)
        THEN End("bad", [o |-> "view", view |-> View(rn.in, cs.nm[rn.rule], a)])
        ELSE IF Has("equal") /\ ~(rn.obs.eqself = TRUE /\ rn.obs.eq = <<eq, eq>>) THEN End("bad", [o |-> "equal", eq |-> eq])
        ELSE IF Has("query") /\ ~(/\ rn.obs.choice = ChoiceOf(a)
                                  /\ \A i \in 1..Len(rn.obs.qs) : QueryOk(a, rn.obs.qs[i]))
        THEN End("bad", [o |-> "query", ast |-> a])
        ELSE End("ok", [o |-> IF Len(asts) = 1 THEN "alone" ELSE IF eq THEN "same" ELSE "different"])

\* the command line: 0 only for a complete match, the AST of whatever matched
Cli ==
  /\ ph = "cli"
  /\ LET m == asts[1].m a == asts[1].a
         fine == rn.fault = "" /\ m.o = "ok"
         shown == rn.fault = "" /\ Matched(m)
         text == IF rn.tree THEN View(rn.in, cs.nm[rn.rule], a[1]) ELSE Text1(rn.in, a[1])
     IN \* the conversion to an AST needs trees that carry the rule's name
        IF shown /\ a = <<>> THEN End("ok", [o |-> "other"])
        ELSE IF (rn.obs.exit = 0) # fine THEN End("bad", [o |-> "exit", fine |-> fine])
        ELSE IF shown /\ rn.obs.out # text \o NL THEN End("bad", [o |-> "out", out |-> text])
        ELSE End("ok", [o |-> IF rn.fault # "" THEN rn.fault ELSE m.o])

Next == Run \/ TooLong \/ Ended \/ Look \/ Cli
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* content equality is reflexive and symmetric
Reflexive == ph = "look" => Same(rn.in, asts[1], rn.in, asts[1])
Symmetric == ph = "look" /\ Len(asts) = 2 => Same(rn.in, asts[1], rn.in2, asts[2]) = Same(rn.in2, asts[2], rn.in, asts[1])
\* ASTs that print alike have the same content
Faithful == ph = "look" /\ Len(asts) = 2 /\ Text1(rn.in, asts[1]) = Text1(rn.in2, asts[2]) => Same(rn.in, asts[1], rn.in2, asts[2])
\* the view shows every visible token once
Complete == ph = "look" =>
  SameBag(Bottom(ViewOf(rn.in, cs.nm[rn.rule], asts[1])), Visible(rn.in, asts[1]))
=============================================================================

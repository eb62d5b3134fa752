------------------------------ MODULE Packages ------------------------------
(* Use of a generated package: what its accessors give for a parsed text, and *)
(* the walk over its typed nodes.                                             *)
(*                                                                            *)
(* A case has a grammar and runs of the package made for it.  Labels are from *)
(* a fixed supply (Labels) which says what they label: a token (t1, t2), a    *)
(* composite term (n1, n2), a rule (raa is rule aa) or the stack itself (self). *)
(*                                                                            *)
(* obs.view is what reading a node gives: its type, a row per accessor, its   *)
(* text if there is no accessor, and the interval of the source it covers.    *)
EXTENDS Ast, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
MaxSteps == 9000

\* label, name in Go, kind, and the rule it refers to; in the order of walks
Labels == <<
  <<"aa", "Aa", "rule", "aa">>, <<"bb", "Bb", "rule", "bb">>, <<"cc", "Cc", "rule", "cc">>, <<"dd", "Dd", "rule", "dd">>,
  <<"n1", "N1", "comp", "">>, <<"n2", "N2", "comp", "">>, <<"node", "Node", "rule", "node">>,
  <<"raa", "Raa", "rule", "aa">>, <<"rbb", "Rbb", "rule", "bb">>, <<"rcc", "Rcc", "rule", "cc">>, <<"rdd", "Rdd", "rule", "dd">>,
  <<"rnode", "Rnode", "rule", "node">>,
  <<"self", "Self", "self", "">>,
  <<"t1", "T1", "token", "">>, <<"t2", "T2", "token", "">>,
  <<"", "Token", "text", "">> >>
GoRule == [aa |-> "Aa", bb |-> "Bb", cc |-> "Cc", dd |-> "Dd", node |-> "Node"]

VARIABLES ci, ri, ph, st, all, k, log, ret
vars == <<ci, ri, ph, st, all, k, log, ret>>
cs == Cases[ci]
rn == Cases[ci].runs[ri]
In1(from, to) == SubSeq(rn.in, from + 1, to)

----------------------------------------------------------------------------
(* Reading a node                                                             *)

SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(n) == LET ts == AstTokens(n) IN
  IF ts = <<>> THEN <<-1, -1>> ELSE <<SMin({ts[i][1] : i \in 1..Len(ts)}), SMax({ts[i][2] : i \in 1..Len(ts)})>>

KidsOf(n, nm) == IF n[1] = "B" /\ nm \in DOMAIN n[2] THEN n[2][nm][2] ELSE <<>>
\* the text of a token node
TextOf(n) == IF n[1] = "L" THEN In1(n[2], n[3])
             ELSE LET ks == KidsOf(n, "") IN IF ks = <<>> THEN <<-1>> ELSE In1(ks[1][2], ks[1][3])
\* literal separators have no accessor of their own, and one occurrence of a
\* labelled one stands for all
RECURSIVE IsLit(_, _)
IsLit(id, s) == IF cs.T[id].k \in {"C", "N"} THEN IsLit(cs.T[id].t, s) ELSE cs.T[id].k = "S" /\ cs.T[id].s = s
IsSep(s) == \E i \in 1..Len(cs.T) : cs.T[i].k = "D" /\ IsLit(cs.T[i].s, s)

RowsOf(v, name) == {i \in 1..Len(v.rows) : v.rows[i][1] = name}
RowVal(v, name) == v.rows[CHOOSE i \in RowsOf(v, name) : TRUE][2]
Type(at, l) == IF l[3] = "comp" THEN [rule |-> at.rule, go |-> at.go \o l[2]]
               ELSE IF l[3] = "self" THEN [rule |-> at.rule, go |-> GoRule[at.rule]]
               ELSE [rule |-> l[4], go |-> GoRule[l[4]]]

\* the node of the rule that a label refers to is below the label under its name
Target(n, at, l) ==
  LET r == IF l[3] = "self" THEN at.rule ELSE l[4] IN
  IF l[3] = "comp" \/ r = l[1] THEN n ELSE KidsOf(n, r)[1]

\* View(n, at, v): v is what reading node n, of type at, gives
RECURSIVE View(_, _, _)
AllRight(ns, at, l, val) ==
  IF l[3] \in {"token", "text"}
  THEN val[1] = "texts" /\ val[2] = [i \in 1..Len(ns) |-> TextOf(ns[i])]
  ELSE /\ val[1] = "nodes" /\ Len(val[2]) = Len(ns)
       /\ \A i \in 1..Len(ns) : View(Target(ns[i], at, l), Type(at, l), val[2][i])
OneRight(n, ns, at, l, val) ==
  IF l[3] = "token" THEN val = <<"text", IF ns = <<>> THEN <<>> ELSE TextOf(ns[1])>>
  ELSE IF l[3] = "text"
  THEN val[1] = "text" /\ IF ns # <<>> THEN val[2] = TextOf(ns[1]) ELSE (val[2] = <<>> \/ Cardinality(DOMAIN n[2]) = 1)
  ELSE IF ns = <<>> THEN val = <<"nil">>
  ELSE \/ val[1] = "node" /\ View(Target(ns[1], at, l), Type(at, l), val[2])
       \/ val = <<"same", Type(at, l).go \o "Node", Hull(ns[1])>>
\* everything in the tree can be read
Reachable(n, l, v) ==
  LET ns == KidsOf(n, l[1]) IN
  \/ ns = <<>>
  \/ RowsOf(v, "All" \o l[2]) # {}
  \/ /\ RowsOf(v, "One" \o l[2]) # {}
     /\ Len(ns) = 1 \/ (l[3] \in {"token", "text"} /\ \A i \in 2..Len(ns) : IsSep(TextOf(ns[i])))
  \/ l[3] = "text" /\ \A i \in 1..Len(ns) : IsSep(TextOf(ns[i]))
  \/ l[3] = "text" /\ v.rows = <<>> /\ v.text = TextOf(ns[1]) /\ \A i \in 2..Len(ns) : IsSep(TextOf(ns[i]))
  \/ l[3] = "token" /\ RowsOf(v, l[2] \o "Ref") # {}
\* every accessor tells what is in the tree
LabelRight(n, at, l, v) ==
  LET ns == KidsOf(n, l[1]) IN
  /\ RowsOf(v, "All" \o l[2]) # {} => AllRight(ns, at, l, RowVal(v, "All" \o l[2]))
  /\ RowsOf(v, "One" \o l[2]) # {} => OneRight(n, ns, at, l, RowVal(v, "One" \o l[2]))
  /\ RowsOf(v, l[2] \o "Ref") # {} =>
       RowVal(v, l[2] \o "Ref") = IF ns = <<>> THEN <<"nil">> ELSE <<"ref", Hull(ns[1])>>
  /\ Reachable(n, l, v)
Names == {"Choice"} \cup UNION {{"One" \o Labels[i][2], "All" \o Labels[i][2], Labels[i][2] \o "Ref"} : i \in 1..Len(Labels)}
View(n, at, v) ==
  /\ v.ty = at.go \o "Node"
  /\ v.hull = Hull(n)
  /\ \A i \in 1..Len(v.rows) : v.rows[i][1] \in Names
  /\ \A i \in 1..Len(Labels) : LabelRight(n, at, Labels[i], v)
  /\ LET ch == KidsOf(n, "@choice") IN
     /\ ch # <<>> => RowsOf(v, "Choice") # {}
     /\ RowsOf(v, "Choice") # {} => ToString(RowVal(v, "Choice")[2]) = IF ch = <<>> THEN "-1" ELSE ch[1][3]

----------------------------------------------------------------------------
(* The walk: over rules and composites, children in the order of Labels       *)

Leafy(v) == v.rows = <<>> \* the package has no exit callback for it
RECURSIVE Below(_, _)
Below(v, ls) ==
  IF ls = <<>> THEN <<>>
  ELSE LET l == Head(ls)
           here == IF l[3] \in {"token", "text"} THEN <<>>
                   ELSE IF RowsOf(v, "All" \o l[2]) # {} THEN RowVal(v, "All" \o l[2])[2]
                   ELSE IF RowsOf(v, "One" \o l[2]) # {} /\ RowVal(v, "One" \o l[2])[1] = "node"
                   THEN <<RowVal(v, "One" \o l[2])[2]>> ELSE <<>>
       IN here \o Below(v, Tail(ls))
RECURSIVE Size(_), Sizes(_)
Size(v) == 1 + Sizes(Below(v, Labels))
Sizes(xs) == IF xs = <<>> THEN 0 ELSE Size(Head(xs)) + Sizes(Tail(xs))
RECURSIVE Table(_, _), Tables(_, _)
Tables(vs, at) == IF vs = <<>> THEN <<>> ELSE LET t == Table(Head(vs), at) IN t \o Tables(Tail(vs), at + Len(t))
Table(v, at) ==
  LET cv == Below(v, Labels)
      below == Tables(cv, at + 1)
      roots == [i \in 1..Len(cv) |-> at + 1 + Sizes(SubSeq(cv, 1, i - 1))]
  IN <<[ty |-> v.ty, hull |-> v.hull, kids |-> roots, leaf |-> Leafy(v)]>> \o below

----------------------------------------------------------------------------
Init == /\ ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs) /\ ph = "parse"
        /\ st = Start(Cases[ci], Cases[ci].runs[ri])
        /\ all = <<>> /\ k = <<>> /\ log = <<>> /\ ret = "nil"

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m])>>, OutFile)
Done(v, m) == ph' = "end" /\ st' = <<>> /\ Verdict(v, m) /\ UNCHANGED <<ci, ri, all, k, log, ret>>

Parse == /\ ph = "parse" /\ st.mode # "done" /\ st.n < MaxSteps
         /\ st' = Step(cs, rn, st)
         /\ UNCHANGED <<ci, ri, ph, all, k, log, ret>>
TooLong == ph = "parse" /\ st.mode # "done" /\ st.n >= MaxSteps /\ Done("long", [o |-> "long"])
Parsed ==
  /\ ph = "parse" /\ st.mode = "done"
  /\ LET m == Outcome(rn, st) IN
     IF m.o # "ok" THEN Done(IF rn.obs.o = "err" THEN "ok" ELSE "bad", [o |-> "err"])
     ELSE IF ~Convertible(rn.rule, m.t) \/ (m.t[1] = "L" /\ cs.T[cs.G[1].rules[rn.rule]].k \notin {"S", "RE", "C"}) THEN Done("ok", [o |-> "free"])
     ELSE LET a == ToAst(cs, rn.rule, m.t) IN
          IF rn.obs.o # "ok" THEN Done("bad", [o |-> "ok", ast |-> a])
          ELSE IF ~View(a, [rule |-> rn.rule, go |-> GoRule[rn.rule]], rn.obs.view) THEN Done("bad", [o |-> "view", ast |-> a])
          ELSE /\ all' = Table(rn.obs.view, 1)
               /\ st' = <<>> /\ ph' = "begin"
               /\ UNCHANGED <<ci, ri, k, log, ret>>

Called(ty, p) == Cardinality({i \in 1..Len(log) : log[i][1] = p /\ log[i][2] = ty})
Answer(ty, p) ==
  LET n == Called(ty, p) + 1
      hits == {i \in 1..Len(rn.script) : rn.script[i].ty = ty /\ rn.script[i].p = p /\ rn.script[i].n \in {0, n}}
  IN IF hits = {} THEN "on" ELSE rn.script[SMin(hits)].a
Top1 == k[Len(k)]
Outer == SubSeq(k, 1, Len(k) - 1)
Stepped == [k EXCEPT ![Len(k)].i = @ + 1]
Begin == /\ ph = "begin" /\ ph' = "walk"
         /\ k' = <<[x |-> 0, kids |-> <<1>>, i |-> 1]>>
         /\ UNCHANGED <<ci, ri, st, all, log, ret>>
\* enter the next child; a leaf is left together with the node that holds it
Enter == /\ ph = "walk" /\ ret = "nil" /\ k # <<>> /\ Top1.i <= Len(Top1.kids)
         /\ LET id == Top1.kids[Top1.i] x == all[id] a == Answer(x.ty, "e") IN
            /\ log' = Append(log, <<"e", x.ty, x.hull>>)
            /\ IF a = "stop" THEN ret' = "stop" /\ k' = <<>>
               ELSE IF a = "leave"
               THEN /\ k' = IF ~x.leaf THEN Stepped ELSE IF Len(k) = 1 THEN <<>> ELSE Outer
                    /\ ret' = IF x.leaf /\ Len(k) = 1 THEN "leave" ELSE "nil"
               ELSE /\ k' = IF x.leaf THEN Stepped ELSE Append(Stepped, [x |-> id, kids |-> x.kids, i |-> 1])
                    /\ ret' = "nil"
         /\ UNCHANGED <<ci, ri, ph, st, all>>
Exit == /\ ph = "walk" /\ ret = "nil" /\ k # <<>> /\ Top1.i > Len(Top1.kids)
        /\ IF Len(k) = 1 THEN k' = <<>> /\ UNCHANGED <<log, ret>>
           ELSE LET x == all[Top1.x] IN
                /\ log' = Append(log, <<"x", x.ty, x.hull>>)
                /\ ret' = IF Answer(x.ty, "x") = "stop" THEN "stop" ELSE "nil"
                /\ k' = IF Answer(x.ty, "x") = "stop" THEN <<>> ELSE Outer
        /\ UNCHANGED <<ci, ri, ph, st, all>>
Compare == /\ ph = "walk" /\ k = <<>>
           /\ IF rn.obs.log = log /\ rn.obs.ret = ret THEN Verdict("ok", [o |-> "read"])
              ELSE Verdict("bad", [o |-> "walk", log |-> log, ret |-> ret])
           /\ ph' = "end"
           /\ UNCHANGED <<ci, ri, st, all, k, log, ret>>
Next == Parse \/ TooLong \/ Parsed \/ Begin \/ Enter \/ Exit \/ Compare
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* a walk nobody stops visits every typed node once
Visits == (ph = "walk" /\ k = <<>> /\ rn.script = <<>>) =>
  ret = "nil" /\ Cardinality({i \in 1..Len(log) : log[i][1] = "e"}) = Len(all)
\* a typed node lies within the one it is below
Inside == ph = "begin" => \A i \in 1..Len(all) : \A j \in 1..Len(all[i].kids) :
  LET d == all[all[i].kids[j]] IN d.hull[1] < 0 \/ (all[i].hull[1] <= d.hull[1] /\ d.hull[2] <= all[i].hull[2])
=============================================================================

------------------------------ MODULE CodeGen -------------------------------
(* From a grammar to Go and back.  The grammar (want, as in Notation.tla) is  *)
(* compiled, the Go expression for its rules is generated, evaluated by the   *)
(* rules of Go, and compiled again.  A record has what the code made of each  *)
(* stage: rules (of the compiled parsers), expr (the grammar the expression   *)
(* denotes, <<>> with a message if it is not an expression of Go), again      *)
(* (the rules after compiling that), twice (whether generating again gives    *)
(* the same text).                                                            *)
EXTENDS Grammars, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS

VARIABLES ci, stage, g
vars == <<ci, stage, g>>
c == Cases[ci]
obs == Cases[ci].runs[1].obs

----------------------------------------------------------------------------
\* Generation puts the layers of a stack together again: a reference to a layer
\* becomes @.
IsLayer(n) == \E i \in 1..Len(n) : n[i] = 64
RECURSIVE AsAt(_), AsAtGram(_)
AsAtGram(r) == [i \in 1..Len(r) |-> <<r[i][1], AsAt(r[i][2])>>]
AsAt(t) ==
  CASE t[1] = "R" -> IF IsLayer(t[2]) THEN <<"R", AtName>> ELSE t
    [] t[1] \in {"Seq", "Oneof", "Stack"} -> <<t[1], [i \in 1..Len(t[2]) |-> AsAt(t[2][i])]>>
    [] t[1] = "D" -> <<"D", AsAt(t[2]), AsAt(t[3]), t[4], t[5], t[6]>>
    [] t[1] = "Q" -> <<"Q", AsAt(t[2]), t[3], t[4]>>
    [] t[1] \in {"L", "C"} -> <<t[1], AsAt(t[2])>>
    [] t[1] = "N" -> <<"N", t[2], AsAt(t[3])>>
    [] t[1] = "G" -> <<"G", AsAt(t[2]), AsAtGram(t[3])>>
    [] OTHER -> t
RuleOf(r, n) == LET is == {i \in 1..Len(r) : r[i][1] = n} IN IF is = {} THEN <<>> ELSE <<r[CHOOSE i \in is : TRUE][2]>>
RECURSIVE LayersOf(_, _, _)
LayersOf(r, n, i) == LET t == RuleOf(r, LayerName(n, i)) IN
                     IF t = <<>> THEN <<>> ELSE <<AsAt(t[1])>> \o LayersOf(r, n, i + 1)
Regroup(r) ==
  LET own == SelectSeq(r, LAMBDA x : ~IsLayer(x[1])) IN
  [i \in 1..Len(own) |->
     LET ls == LayersOf(r, own[i][1], 1) IN
     <<own[i][1], IF Len(ls) = 1 THEN ls[1] ELSE <<"Stack", ls>>>>]

----------------------------------------------------------------------------
Init == ci \in 1..Len(Cases) /\ stage = "written" /\ g = Cases[ci].want
Put(v, e) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> 1, v |-> v, exp |-> e])>>, OutFile)
\* a stage gives the grammar w; the code gave x
Goes(to, w, x, last) ==
  IF SameWrap(x) = SameWrap(w)
  THEN /\ stage' = to /\ g' = w /\ (IF last THEN Put("ok", [o |-> "ok"]) ELSE TRUE)
  ELSE /\ stage' = "end" /\ g' = <<>> /\ Put("bad", [o |-> to, g |-> SameWrap(w)])
Compile == /\ stage = "written" /\ UNCHANGED ci
           /\ IF obs.o # "ok" THEN stage' = "end" /\ g' = <<>> /\ Put("bad", [o |-> "ok"])
              ELSE Goes("compiled", ResolveStacks(g), obs.rules, FALSE)
Generate == stage = "compiled" /\ UNCHANGED ci /\ Goes("generated", Regroup(g), obs.expr, FALSE)
Recompile == stage = "generated" /\ UNCHANGED ci /\ Goes("recompiled", ResolveStacks(g), obs.again, obs.twice)
             /\ (obs.twice \/ stage' = "end" \/ Put("bad", [o |-> "twice"]))
Next == Compile \/ Generate \/ Recompile
Spec == Init /\ [][Next]_vars

\* nothing is lost on the way
Same == stage = "generated" => ResolveStacks(g) = ResolveStacks(c.want)
=============================================================================

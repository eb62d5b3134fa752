------------------------------- MODULE Walker -------------------------------
(* The typed tree of a grammar text and the walk over it.                     *)
(*                                                                            *)
(* A record has the text, and walks: the callbacks present (on[type] is "",   *)
(* "e", "x" or "ex" for enter and exit), their answers (script: the n-th call *)
(* of a callback, 0 for every call, answers "leave" or "stop"; other calls    *)
(* go on), the place the walk starts at (the at-th typed node in walk order), *)
(* the observed calls and the result.                                         *)
EXTENDS Ast, Notation, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
Stacked == JsonDeserialize("wbnf_stack.json") \* Core with its stack in one piece

----------------------------------------------------------------------------
(* Typed nodes: what may be below each type, in the order of the walk.  Each  *)
(* entry is the name the child has in the AST and its type.                   *)
Below ==
  [AtomExtRef |-> << <<"IDENT", "Ident">> >>,
   Atom |-> << <<"ExtRef", "AtomExtRef">>, <<"IDENT", "Ident">>, <<"lookahead", "Term">>, <<"macrocall", "Macrocall">>,
               <<"RE", "Re">>, <<"REF", "Ref">>, <<"STR", "Str">>, <<"term", "Term">> >>,
   Grammar |-> << <<"stmt", "Stmt">> >>,
   Macrocall |-> << <<"name", "Ident">>, <<"term", "Term">> >>,
   Named |-> << <<"atom", "Atom">>, <<"IDENT", "Ident">> >>,
   PragmaImport |-> << <<"path", "PragmaImportPath">> >>,
   PragmaImportPath |-> <<>>,
   PragmaMacrodef |-> << <<"args", "Ident">>, <<"name", "Ident">>, <<"term", "Term">> >>,
   Pragma |-> << <<"import", "PragmaImport">>, <<"macrodef", "PragmaMacrodef">> >>,
   Prod |-> << <<"IDENT", "Ident">>, <<"term", "Term">> >>,
   Quant |-> << <<"max", "Int">>, <<"min", "Int">>, <<"named", "Named">> >>,
   Ref |-> << <<"default", "Str">>, <<"IDENT", "Ident">> >>,
   Stmt |-> << <<"COMMENT", "Comment">>, <<"pragma", "Pragma">>, <<"prod", "Prod">> >>,
   Term |-> << <<"grammar", "Grammar">>, <<"named", "Named">>, <<"quant", "Quant">>, <<"term", "Term">> >>]
\* types of tokens: they have an enter callback only
Tokenish == {"Comment", "Ident", "Int", "Re", "Str", "WrapRe"}
Typed(ty, n) == [ty |-> ty, n |-> n]

RECURSIVE Gather(_, _)
Gather(n, row) ==
  IF row = <<>> THEN <<>>
  ELSE LET nm == Head(row)[1] ty == Head(row)[2]
           ns == IF nm \in DOMAIN n[2] THEN n[2][nm][2] ELSE <<>>
       IN [i \in 1..Len(ns) |-> Typed(ty, ns[i])] \o Gather(n, Tail(row))
Children(x) == IF x.ty \in Tokenish THEN <<>> ELSE Gather(x.n, Below[x.ty])

\* the source interval a node covers
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(n) == LET ts == AstTokens(n) IN
  IF ts = <<>> THEN <<-1, -1>> ELSE <<SMin({ts[i][1] : i \in 1..Len(ts)}), SMax({ts[i][2] : i \in 1..Len(ts)})>>

\* The nodes in walk order, as records [ty, from, to, kids (indices), names];
\* at is the index of the first one.
RECURSIVE Size(_), Sizes(_)
Size(x) == 1 + Sizes(Children(x))
Sizes(xs) == IF xs = <<>> THEN 0 ELSE Size(Head(xs)) + Sizes(Tail(xs))
RECURSIVE Table(_, _), Tables(_, _)
Tables(xs, at) ==
  IF xs = <<>> THEN <<>> ELSE LET t == Table(Head(xs), at) IN t \o Tables(Tail(xs), at + Len(t))
Table(x, at) ==
  LET cs == Children(x)
      below == Tables(cs, at + 1)
      roots == [i \in 1..Len(cs) |-> at + 1 + Sizes(SubSeq(cs, 1, i - 1))]
  IN <<[ty |-> x.ty, from |-> Hull(x.n)[1], to |-> Hull(x.n)[2], kids |-> roots, names |-> DOMAIN x.n[2]]>> \o below

----------------------------------------------------------------------------
(* The walk.  A frame is a node being visited with its children and the index *)
(* of the next one.  calls counts the calls of each callback.                 *)
VARIABLES ci, wi, ph, st, all, k, log, ret
vars == <<ci, wi, ph, st, all, k, log, ret>>
cs == Cases[ci]
wk == Cases[ci].runs[wi]

TextRun == [rule |-> "grammar", in |-> Cases[ci].text, ext |-> [zz |-> <<>>], esc |-> [on |-> FALSE]]
Init == /\ ci \in 1..Len(Cases) /\ wi = 0 /\ ph = "parse"
        /\ st = Start(Core, TextRun)
        /\ all = <<>> /\ k = <<>> /\ log = <<>> /\ ret = "nil"

Parse == /\ ph = "parse" /\ st.mode # "done"
         /\ st' = Step(Core, TextRun, st)
         /\ UNCHANGED <<ci, wi, ph, all, k, log, ret>>
Accepted == st.res.o = "ok" /\ st.res.pos = Len(cs.text)
Convert == /\ ph = "parse" /\ st.mode = "done"
           /\ all' = IF Accepted THEN Table(Typed("Grammar", ToAst(Stacked, "grammar", st.res.tree)), 1) ELSE <<>>
           /\ st' = <<>>
           /\ ph' = "next"
           /\ UNCHANGED <<ci, wi, k, log, ret>>

Has(ty, p) == ty \in DOMAIN wk.on /\ \E i \in 1..Len(wk.on[ty]) : wk.on[ty][i] = p
Called(ty, p) == Cardinality({i \in 1..Len(log) : log[i][1] = p /\ log[i][2] = ty})
Answer(ty, p) ==
  IF ~Has(ty, p) THEN "on"
  ELSE LET n == Called(ty, p) + 1
           hits == {i \in 1..Len(wk.script) : wk.script[i].ty = ty /\ wk.script[i].p = p /\ wk.script[i].n \in {0, n}}
       IN IF hits = {} THEN "on" ELSE wk.script[SMin(hits)].a
Logged(x, p) == IF Has(x.ty, p) THEN Append(log, <<p, x.ty, x.from, x.to>>) ELSE log

\* the walk begins at a node
Begin == /\ ph = "next" /\ all # <<>> /\ wi < Len(cs.runs)
         /\ wi' = wi + 1 /\ ph' = "walk"
         /\ log' = <<>> /\ ret' = "nil"
         /\ k' = <<[x |-> 0, kids |-> <<(Cases[ci].runs[wi + 1].at % Len(all)) + 1>>, i |-> 1]>>
         /\ UNCHANGED <<ci, st, all>>
Here == k[Len(k)]
Outer == SubSeq(k, 1, Len(k) - 1)
Stepped == [k EXCEPT ![Len(k)].i = @ + 1]
\* enter the next child of the node being visited
Enter == /\ ph = "walk" /\ ret = "nil" /\ k # <<>> /\ Here.i <= Len(Here.kids)
         /\ LET id == Here.kids[Here.i] x == all[id] a == Answer(x.ty, "e") IN
            /\ log' = Logged(x, "e")
            /\ IF a = "stop" THEN ret' = "stop" /\ k' = <<>>
               ELSE IF a = "leave"
               THEN \* a token is left together with the node that holds it
                    /\ k' = IF x.ty \notin Tokenish THEN Stepped ELSE IF Len(k) = 1 THEN <<>> ELSE Outer
                    /\ ret' = IF x.ty \in Tokenish /\ Len(k) = 1 THEN "leave" ELSE "nil"
               ELSE /\ k' = IF x.ty \in Tokenish THEN Stepped
                            ELSE Append(Stepped, [x |-> id, kids |-> x.kids, i |-> 1])
                    /\ ret' = "nil"
         /\ UNCHANGED <<ci, wi, ph, st, all>>
\* exit the node being visited
Exit == /\ ph = "walk" /\ ret = "nil" /\ k # <<>> /\ Here.i > Len(Here.kids)
        /\ IF Len(k) = 1 THEN k' = <<>> /\ UNCHANGED <<log, ret>>
           ELSE LET x == all[Here.x] IN
                /\ log' = Logged(x, "x")
                /\ ret' = IF Answer(x.ty, "x") = "stop" THEN "stop" ELSE "nil"
                /\ k' = IF Answer(x.ty, "x") = "stop" THEN <<>> ELSE Outer
        /\ UNCHANGED <<ci, wi, ph, st, all>>

Decided(v, e) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> wi, v |-> v, exp |-> e])>>, OutFile)
Compare == /\ ph = "walk" /\ k = <<>>
           /\ IF wk.obs.o = "ok" /\ wk.obs.log = log /\ wk.obs.ret = ret
              THEN Decided("ok", [o |-> ret]) ELSE Decided("bad", [o |-> "ok", log |-> log, ret |-> ret])
           /\ ph' = "next"
           /\ UNCHANGED <<ci, wi, st, all, k, log, ret>>
\* not a grammar text: there is nothing to walk
Reject == /\ ph = "next" /\ all = <<>> /\ wi < Len(cs.runs)
          /\ wi' = wi + 1
          /\ CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> wi + 1, v |-> "gen", exp |-> [o |-> "gen"]])>>, OutFile)
          /\ UNCHANGED <<ci, ph, st, all, k, log, ret>>
Next == Parse \/ Convert \/ Begin \/ Enter \/ Exit \/ Compare \/ Reject
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the walk guarantees                                                   *)

\* the children of a typed node are all its labelled children
Unlabelled == {"", "@choice", "@empty", "@rule", "op", "opt_leading", "opt_trailing"}
CompleteTable == \A i \in 1..Len(all) :
  all[i].ty \notin Tokenish =>
    (all[i].names \ Unlabelled) \subseteq {Below[all[i].ty][j][1] : j \in 1..Len(Below[all[i].ty])}
\* a node lies within the node it is below
InsideTable == \A i \in 1..Len(all) : \A j \in 1..Len(all[i].kids) :
  LET d == all[all[i].kids[j]] IN all[i].from <= d.from /\ d.to <= all[i].to
Complete == ph = "next" /\ wi = 0 => CompleteTable
Inside == ph = "next" /\ wi = 0 => InsideTable
\* exits answer enters: with every callback present, a walk that is nowhere
\* stopped calls each exit for a node entered before, innermost first
RECURSIVE Matched(_, _)
Matched(l, open) ==
  IF l = <<>> THEN TRUE
  ELSE LET h == Head(l) e == <<h[2], h[3], h[4]>> IN
       IF h[1] = "e" THEN Matched(Tail(l), Append(open, e))
       ELSE \E i \in 1..Len(open) : open[i] = e /\ Matched(Tail(l), SubSeq(open, 1, i - 1))
Everything == \A ty \in DOMAIN Below : Has(ty, "e") /\ Has(ty, "x")
WellNested == (ph = "walk" /\ k = <<>> /\ Everything) => Matched(log, <<>>)
\* nothing is stopped without a request, and then every node is visited
Unasked == (ph = "walk" /\ k = <<>> /\ wk.script = <<>>) => ret = "nil"
Visits == (ph = "walk" /\ k = <<>> /\ wk.script = <<>> /\ Everything /\ (\A ty \in Tokenish : Has(ty, "e")) /\ wk.at = 0) =>
  Cardinality({i \in 1..Len(log) : log[i][1] = "e"}) = Len(all)
=============================================================================

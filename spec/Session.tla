------------------------------ MODULE Session -------------------------------
(* Conformance of recorded sessions: a session parses, converts the tree to   *)
(* an AST, converts that back, unparses the tree and parses the output again. *)
(* The specification makes the same steps; every recorded stage must be the   *)
(* one it computes.  cmp says which stages a check looks at:                  *)
(*   tree  ast  back  unparse                                                 *)
EXTENDS Ast, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
MaxSteps == 9000

\* stage: parse, ast, back, unparse, end; made: what the stages produced
VARIABLES ci, ri, st, stage, made
vars == <<ci, ri, st, stage, made>>

cs == Cases[ci]
rn == Cases[ci].runs[ri]
Has(x) == \E i \in 1..Len(cs.cmp) : cs.cmp[i] = x

Init == /\ ci \in 1..Len(Cases)
        /\ ri \in 1..Len(Cases[ci].runs)
        /\ st = Start(Cases[ci], Cases[ci].runs[ri])
        /\ stage = "parse"
        /\ made = [o |-> "", tree |-> EmptyEl, ast |-> <<>>, back |-> <<>>, un |-> <<>>]

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m, n |-> st.n])>>, OutFile)
Stop1(v, m) == stage' = "end" /\ Verdict(v, m) /\ UNCHANGED <<ci, ri, st, made>>

Run == /\ stage = "parse" /\ st.mode # "done" /\ st.n < MaxSteps
       /\ st' = Step(cs, rn, st)
       /\ UNCHANGED <<ci, ri, stage, made>>
TooLong == stage = "parse" /\ st.mode # "done" /\ st.n >= MaxSteps /\ Stop1("long", [o |-> "long"])

Dead(o) == o \in {"hang", "crash", "skipped"}
Failed(o) == o \in {"err", "fatal", "stop"}
\* a compiled parser has no state that a use changes: whoever uses it with the
\* same arguments, and whenever, gets the same result, which then stays
Differs == /\ stage = "parse" /\ st.mode = "done" /\ Has("reuse") /\ ~Dead(rn.obs.o) /\ rn.obs.others # <<>>
           /\ Stop1("bad", [o |-> "others", first |-> Outcome(rn, st)])
Parsed == /\ stage = "parse" /\ st.mode = "done"
          /\ IF Has("reuse") /\ ~Dead(rn.obs.o) THEN rn.obs.others = <<>> ELSE TRUE
          /\ LET m == Outcome(rn, st) IN
             IF Dead(rn.obs.o) THEN Stop1("bad", m)
             ELSE IF Failed(m.o) THEN Stop1(IF Failed(rn.obs.o) \/ ~Has("tree") THEN "ok" ELSE "bad", [o |-> m.o])
             ELSE IF m.o # rn.obs.o \/ m.p # rn.obs.p \/ m.t # rn.obs.t
             THEN \* another property's business unless trees are compared here
                  Stop1(IF Has("tree") THEN "bad" ELSE "ok", IF Has("tree") THEN m ELSE [o |-> "other"])
             ELSE /\ stage' = "ast"
                  /\ made' = [made EXCEPT !.o = m.o, !.tree = m.t]
                  /\ UNCHANGED <<ci, ri, st>>

\* a stage that the specification does not decide for this case is skipped
Convert ==
  /\ stage = "ast"
  /\ IF ~Convertible(rn.rule, made.tree)
     THEN stage' = "unparse" /\ UNCHANGED <<ci, ri, st, made>>
     ELSE LET a == ToAst(cs, rn.rule, made.tree) IN
          IF Has("ast") /\ rn.obs.ast # a THEN Stop1("bad", [o |-> "ast", ast |-> a])
          ELSE stage' = "back" /\ made' = [made EXCEPT !.ast = a] /\ UNCHANGED <<ci, ri, st>>

CanGoBack == made.tree[1] = "N" /\ Reversible(cs)
GoBack ==
  /\ stage = "back"
  /\ IF ~CanGoBack THEN stage' = "unparse" /\ UNCHANGED <<ci, ri, st, made>>
     ELSE IF Has("back") /\ rn.obs.back = <<"NONE">> THEN Stop1("gen", [o |-> "back"])
     ELSE IF Has("back") /\ ~(rn.obs.back = made.tree /\ rn.obs.kept)
     THEN Stop1("bad", [o |-> "back", t |-> made.tree])
     ELSE /\ stage' = "unparse"
          /\ made' = [made EXCEPT !.back = FromAst(cs, rn.rule, made.ast)]
          /\ UNCHANGED <<ci, ri, st>>

Covered == made.o \o (IF made.ast # <<>> THEN "+ast" ELSE "") \o (IF made.back # <<>> THEN "+back" ELSE "")
CanUnparse == /\ Convertible(rn.rule, made.tree)
              /\ \A i \in 1..Len(cs.T) : cs.T[i].k \notin {"G", "X", "REF", "L"}
Unparse ==
  /\ stage = "unparse"
  /\ IF ~CanUnparse THEN Stop1("ok", [o |-> Covered])
     ELSE LET u == Unparsed(rn.in, made.tree)
              same == /\ rn.obs.un = u
                      /\ rn.obs.unn = Bytes(u)
                      /\ (Lossless(cs) /\ made.o = "ok") => rn.obs.re = made.tree
          IN IF Has("unparse") /\ ~same
             THEN Stop1("bad", [o |-> "unparse", un |-> u, n |-> Bytes(u), re |-> made.tree])
             ELSE /\ stage' = "end"
                  /\ made' = [made EXCEPT !.un = <<u>>]
                  /\ Verdict("ok", [o |-> Covered \o "+unparse"])
                  /\ UNCHANGED <<ci, ri, st>>

Next == Run \/ TooLong \/ Differs \/ Parsed \/ Convert \/ GoBack \/ Unparse
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the conversions themselves                                   *)

\* each token of the tree is in the AST once, each group in source order
Keeps == \A i \in 1..Len(cs.T) : cs.T[i].k # "X"
Inverse == made.ast # <<>> /\ Keeps => SameBag(AstTokens(made.ast), Tokens(made.tree))
Looks == \A i \in 1..Len(cs.T) : cs.T[i].k \notin {"L", "X"}
Ordered == made.ast # <<>> /\ Looks => InOrder(made.ast)
\* in the reversible class, going back is the inverse of conversion
RoundTrip == made.back # <<>> => made.back = <<made.tree>>
\* without wrappers and groups unparsing writes the consumed input
Written == (made.un # <<>> /\ Lossless(cs)) => made.un[1] = SubSeq(rn.in, 1, st.res.pos)
=============================================================================

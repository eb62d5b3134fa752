-------------------------------- MODULE Text --------------------------------
(* Conformance of recorded compilations of grammar text.  Each record has the *)
(* text, the checks to make (cmp), what was observed (obs.o = "ok" with the   *)
(* grammar obs.g, or "err" with the message obs.msg), the grammar the text    *)
(* was printed from (want, <<>> if none) and the regexes known to be invalid. *)
EXTENDS Grammars, Faults, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS

VARIABLES ci, ri, st, ph
vars == <<ci, ri, st, ph>>
c == Cases[ci]
Has(x) == \E i \in 1..Len(c.cmp) : c.cmp[i] = x
obs == c.runs[ri].obs

Put(v, e) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> e])>>, OutFile)

\* the grammar reported by the code for a text that compiles
GrammarVerdict(t) ==
  LET exp == IF Has("cuts") THEN Compiled(c.text, t) ELSE ResolveStacks(NoCutGram(Meaning(c.text, t)))
      got == SameWrap(IF Has("cuts") THEN obs.g ELSE NoCutGram(obs.g))
  IN IF c.want # <<>> /\ DGram(c.text, t) # c.want
     THEN Put("gen", [o |-> "gen", g |-> DGram(c.text, t)])
     ELSE IF obs.o = "ok" THEN IF got = SameWrap(exp) THEN Put("ok", [o |-> "ok"]) ELSE Put("bad", [o |-> "ok", g |-> SameWrap(exp)])
     ELSE IF obs.o = "err" /\ (Faults(c.text, t, c.badre) # {} \/ MaybeCyclic(c.text, t)) THEN Put("ok", [o |-> "free"])
     ELSE Put("bad", [o |-> "ok", g |-> exp])

Contains(msg, x) == \E i \in 0..(Len(msg) - Len(x)) : \A j \in 1..Len(x) : msg[i + j] = x[j]

FaultVerdict(t) ==
  LET fs == Faults(c.text, t, c.badre)
      missing == {f \in fs : obs.o = "err" /\ ~Contains(obs.msg, f[2])}
      cyc == CycleRules(c.text, t)
      maybe == MaybeCyclic(c.text, t)
  IN IF fs # {} THEN
        IF obs.o = "err" /\ missing = {} THEN Put("ok", [o |-> "faults"]) ELSE Put("bad", [o |-> "faults", f |-> fs, missing |-> missing])
     ELSE IF cyc # {} THEN
        IF obs.o = "err" /\ \E r \in cyc : Contains(obs.msg, r) THEN Put("ok", [o |-> "cycle"])
        ELSE Put("bad", [o |-> "cycle", f |-> cyc])
     ELSE IF maybe THEN IF obs.o \in {"ok", "err"} THEN Put("ok", [o |-> "free"]) ELSE Put("bad", [o |-> "free"])
     ELSE IF obs.o = "ok" THEN Put("ok", [o |-> "ok"]) ELSE Put("bad", [o |-> "ok"])

\* <<>> when the text does not follow the notation, otherwise <<tree>>
Parsed == IF st.res.o = "ok" /\ st.res.pos = Len(c.text) THEN <<st.res.tree>> ELSE <<>>

Decide ==
  IF Has("accept") THEN (IF obs.o = "ok" THEN Put("ok", [o |-> "ok"]) ELSE Put("bad", [o |-> "ok"])) ELSE
  \* the notation: its own text denotes the built-in grammar, up to commit
  \* points (known finding nested-cut), which are compared as data
  IF Has("same") THEN
     (LET p == Parsed d == SameWrap(ResolveStacks(NoCutGram(Meaning(c.text, p[1]))))
          e == SameWrap(NoCutGram(c.want))
      IN IF p = <<>> \/ d # e THEN Put("gen", [o |-> "gen", g |-> IF p = <<>> THEN <<>> ELSE d])
         ELSE IF obs.o = "ok" /\ obs.g = c.want THEN Put("ok", [o |-> "ok"]) ELSE Put("bad", [o |-> "ok", g |-> c.want]))
  ELSE LET p == Parsed IN
  IF p = <<>> THEN
     IF c.want # <<>> THEN Put("gen", [o |-> "gen"])
     ELSE IF obs.o = "err" THEN Put("ok", [o |-> "syntax"]) ELSE Put("bad", [o |-> "syntax"])
  ELSE IF Has("faults") THEN FaultVerdict(p[1])
  ELSE GrammarVerdict(p[1])

\* the notation is parsed by the machine of Engine.tla
TextRun == [rule |-> "grammar", in |-> Cases[ci].text, ext |-> [zz |-> <<>>], esc |-> [on |-> FALSE]]
Init == /\ ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs) /\ ph = "run"
        /\ st = Start(Core, TextRun)
Parse == ph = "run" /\ st.mode # "done" /\ st' = Step(Core, TextRun, st) /\ UNCHANGED <<ci, ri, ph>>
Check == ph = "run" /\ st.mode = "done" /\ ph' = "end" /\ Decide /\ UNCHANGED <<ci, ri, st>>
Next == Parse \/ Check
Spec == Init /\ [][Next]_vars
TypeOK == ph \in {"run", "end"}
=============================================================================

-------------------------------- MODULE Conf --------------------------------
(* Conformance of recorded parses: every recorded run of the real parser must *)
(* be the outcome of a behaviour of the machine.  Each (case, run) pair is an *)
(* initial state; one verdict line is written per pair.                       *)
EXTENDS Engine, Peg, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
CheckPeg == IOEnv.PEG = "1"
MaxSteps == IF "max" \in DOMAIN Cases[1] THEN Cases[1].max ELSE 9000

VARIABLES ci, ri, st, ph
vars == <<ci, ri, st, ph>>

cs == Cases[ci]
rn == Cases[ci].runs[ri]

Init == /\ ci \in 1..Len(Cases)
        /\ ri \in 1..Len(Cases[ci].runs)
        /\ st = Start(Cases[ci], Cases[ci].runs[ri])
        /\ ph = "run"

Failed(o) == o \in {"err", "fatal", "stop"}
Has(x) == \E i \in 1..Len(cs.cmp) : cs.cmp[i] = x

\* "ifok": only complete matches of the machine say something about the run
Agree(m, o) == (Has("ifok") /\ m.o # "ok") \/
  /\ IF Has("kind") THEN m.o = o.o ELSE (m.o = o.o \/ (Failed(m.o) /\ Failed(o.o)))
  /\ Failed(m.o) \/ m.p = o.p
  /\ Has("fpos") => m.p = o.p
  /\ (Has("tree") /\ ~Failed(m.o)) => m.t = o.t
  /\ Has("toks") /\ ~Failed(m.o) => Tokens(m.t) = Tokens(o.t)
  /\ Has("log") => m.log = o.log

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m, n |-> st.n])>>, OutFile)

Run == /\ ph = "run" /\ st.mode # "done" /\ st.n < MaxSteps
       /\ st' = Step(cs, rn, st)
       /\ UNCHANGED <<ci, ri, ph>>
Finish == /\ ph = "run" /\ st.mode = "done"
          /\ ph' = "end"
          /\ LET m == Outcome(rn, st) IN
             IF Agree(m, rn.obs) THEN Verdict("ok", [o |-> m.o]) ELSE Verdict("bad", m)
          /\ UNCHANGED <<ci, ri, st>>
TooLong == /\ ph = "run" /\ st.mode # "done" /\ st.n >= MaxSteps
           /\ ph' = "end" /\ Verdict("long", [o |-> "long"])
           /\ UNCHANGED <<ci, ri, st>>
Next == Run \/ Finish \/ TooLong
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the machine itself, checked along every behaviour *)

InRange(p) == 0 <= p /\ p <= Len(rn.in)
FrameOk(f) ==
  CASE f.f = "seq" -> InRange(f.last) /\ f.i = Len(f.acc) + 1
    [] f.f = "one" -> f.start <= f.far /\ InRange(f.far)
    [] f.f = "q" -> InRange(f.last)
    [] f.f = "l" -> InRange(f.start)
    [] OTHER -> TRUE
TypeOK == /\ InRange(st.pos)
          /\ InRange(st.res.pos)
          /\ \A i \in 1..Len(st.k) : FrameOk(st.k[i])
\* attempts never start before the attempt that encloses them (a lookahead
\* returns to its start, never further)
FrameStart(f) == CASE f.f \in {"seq", "q"} -> f.last [] f.f \in {"one", "l"} -> f.start [] OTHER -> 0
Placed(f) == f.f \in {"seq", "q", "one", "l"}
Nesting == LET n == Len(st.k) IN
  (n > 0 /\ Placed(st.k[n])) =>
     \A i \in 1..(n - 1) : Placed(st.k[i]) => FrameStart(st.k[i]) <= FrameStart(st.k[n])
\* a commit is only ever in force after one was passed, and ids are unique
CpOk == st.sc.cp < st.ncp
\* a lookahead consumes nothing; the tree of a success covers only consumed text
TokensInside ==
  st.mode = "done" /\ st.res.o = "ok" =>
     LET ts == Tokens(st.res.tree) IN
     \A i \in 1..Len(ts) : 0 <= ts[i][1] /\ ts[i][1] <= ts[i][2] /\ ts[i][2] <= Len(rn.in)
\* the machine implements ordered choice as defined denotationally (Peg.tla)
AgreesWithPeg ==
  (CheckPeg /\ st.mode = "done" /\ cs.pure) =>
     LET d == Peg(cs, rn.in, Norm(cs, RuleCtl(cs, rn.rule, 1)), 0, NoBind(cs)) IN
     IF d = <<>> THEN st.res.o = "err" ELSE st.res.o = "ok" /\ st.res.pos = d[1] /\ st.res.tree = d[2]
=============================================================================

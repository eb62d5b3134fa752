-------------------------------- MODULE Pos ---------------------------------
(* Conformance of the positions in recorded results.  The input of a parse is *)
(* an interval of a source; every leaf of the tree and of the AST, every      *)
(* branch, the remainder and the scanner left behind by a failure must be the *)
(* scanners (Scanner.tla) of the intervals that the machine computes.         *)
EXTENDS Ast, Notation, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
MaxSteps == 9000
S == INSTANCE Scanner

VARIABLES ci, ri, st, ph
vars == <<ci, ri, st, ph>>
cs == Cases[ci]
rn == Cases[ci].runs[ri]

Init == /\ ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs)
        /\ st = Start(Cases[ci], Cases[ci].runs[ri]) /\ ph = "run"

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m, n |-> st.n])>>, OutFile)
End1(v, m) == ph' = "end" /\ Verdict(v, m) /\ UNCHANGED <<ci, ri, st>>

RECURSIVE Encoded(_)
Encoded(xs) == IF xs = <<>> THEN <<>> ELSE Utf8(Head(xs)) \o Encoded(Tail(xs))
\* the scanner of the input from index p to q
Sc(p, q) == LET a == Len(rn.pre) + Bytes(SubSeq(rn.in, 1, p))
            IN [text |-> rn.pre \o Encoded(rn.in) \o rn.suf, file |-> rn.file, at |-> a,
                len |-> Bytes(SubSeq(rn.in, p + 1, q)), whole |-> TRUE]
Seen(p, q) == S!Look(Sc(p, q))
Leaves(ts) == [i \in 1..Len(ts) |-> Seen(ts[i][1], ts[i][2])]

\* the intervals of all branches of an AST that have tokens
RECURSIVE Hulls(_)
Hulls(n) ==
  IF n[1] # "B" THEN {}
  ELSE LET ts == AstTokens(n)
           kids == UNION {UNION {Hulls(n[2][x][2][i]) : i \in 1..Len(n[2][x][2])} : x \in DOMAIN n[2]}
           one == IF ts = <<>> THEN {}
                  ELSE {<<S!Least({ts[i][1] : i \in 1..Len(ts)}), S!Most({ts[i][2] : i \in 1..Len(ts)})>>}
       IN kids \cup one
Range(xs) == {xs[i] : i \in 1..Len(xs)}

Failed(o) == o \in {"err", "fatal", "stop"}
Expected(m) ==
  LET ok == ~Failed(m.o)
      conv == ok /\ Convertible(rn.rule, m.t)
      a == ToAst(cs, rn.rule, m.t)
  IN [leaves |-> IF ok THEN Leaves(Tokens(m.t)) ELSE <<>>,
      left |-> IF m.o = "rest" THEN <<Seen(m.p, Len(rn.in))>> ELSE <<>>,
      ast |-> IF conv THEN Range(Leaves(AstTokens(a))) ELSE {},
      hulls |-> IF conv THEN {Seen(h[1], h[2]) : h \in Hulls(a)} ELSE {}]

Run == /\ ph = "run" /\ st.mode # "done" /\ st.n < MaxSteps
       /\ st' = Step(cs, rn, st) /\ UNCHANGED <<ci, ri, ph>>
TooLong == ph = "run" /\ st.mode # "done" /\ st.n >= MaxSteps /\ End1("long", [o |-> "long"])
Finish ==
  /\ ph = "run" /\ st.mode = "done"
  /\ LET m == Outcome(rn, st) o == rn.obs e == Expected(m) IN
     IF o.o \in {"hang", "crash", "skipped", "panic"} THEN End1("bad", m)
     ELSE IF Failed(m.o) # Failed(o.o) \/ (~Failed(m.o) /\ m.o # o.o) THEN End1("bad", m)
     ELSE IF Failed(m.o)
     THEN \* the scanner left behind ends where the input ends
          IF \E p \in 0..Len(rn.in) : o.left = <<Seen(p, Len(rn.in))>> THEN End1("ok", [o |-> m.o])
          ELSE End1("bad", [o |-> m.o, left |-> Seen(0, Len(rn.in))])
     ELSE IF o.leaves = e.leaves /\ o.left = e.left /\ (e.ast = {} \/ (Range(o.ast) = e.ast /\ Range(o.hulls) = e.hulls))
     THEN End1("ok", [o |-> IF e.ast = {} THEN m.o ELSE m.o \o "+ast"])
     ELSE End1("bad", e)
Next == Run \/ TooLong \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

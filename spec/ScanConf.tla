------------------------------ MODULE ScanConf ------------------------------
(* Conformance of recorded histories of scanner operations: after each        *)
(* operation its answer and all that can be seen of all scanners must be what *)
(* Scanner.tla says.                                                          *)
EXTENDS Scanner, TLC, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
Regs == 4

\* i: operations done; rs: the scanners; was: the scanners before the last one
VARIABLES ci, ri, i, rs, was, ph
vars == <<ci, ri, i, rs, was, ph>>
rn == Cases[ci].runs[ri]

Init == /\ ci \in 1..Len(Cases) /\ ri \in 1..Len(Cases[ci].runs)
        /\ i = 0 /\ rs = [k \in 1..Regs |-> Nil] /\ was = rs /\ ph = "run"

Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> ri, v |-> v, exp |-> m])>>, OutFile)
End1(v, m) == ph' = "end" /\ Verdict(v, m) /\ UNCHANGED <<ci, ri>>

Agree(d, o) == d.ans = o.ans /\ Seen(d.rs) = o.seen
Op == /\ ph = "run" /\ i < Len(rn.ev)
      /\ LET e == rn.ev[i + 1] IN
         IF ~Allowed(rs, e) THEN End1("gen", [o |-> "gen", i |-> i]) /\ UNCHANGED <<i, rs, was>>
         ELSE LET d == Do(rs, e) IN
         IF i + 1 > Len(rn.obs.steps) \/ ~Agree(d, rn.obs.steps[i + 1])
         THEN End1("bad", [o |-> "step", i |-> i + 1, op |-> e.op, ans |-> d.ans, seen |-> Seen(d.rs)]) /\ UNCHANGED <<i, rs, was>>
         ELSE i' = i + 1 /\ rs' = d.rs /\ was' = rs /\ UNCHANGED <<ci, ri, ph>>
Finish == ph = "run" /\ i = Len(rn.ev) /\ End1("ok", [o |-> "ok"]) /\ UNCHANGED <<i, rs, was>>
Next == Op \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws of scanners                                                           *)
Wholes(x) == {k \in 1..Regs : Live(x, k)}
Inside == \A k \in Wholes(rs) : rs[k].at >= 0 /\ rs[k].len >= 0 /\ End(rs[k]) <= Len(rs[k].text)
\* what was eaten and what is left make up what was there
Partition ==
  i > 0 /\ ph = "run" =>
    LET e == rn.ev[i] IN
    e.op \in {"eat", "eats", "eatre"} /\ rs # was =>
      /\ Str(rs[e.r]) \o Str(rs[e.a]) = Str(was[e.a])
      /\ Merge(<<rs[e.r], rs[e.a]>>) = <<was[e.a]>>
      /\ Contains(was[e.a], rs[e.r]) /\ Contains(was[e.a], rs[e.a])
\* a merge is the least scanner that contains what was merged
Hull ==
  i > 0 /\ ph = "run" =>
    LET e == rn.ev[i] IN
    e.op = "merge" /\ rs # was =>
      /\ \A j \in 1..Len(e.of) : Contains(rs[e.r], was[e.of[j]])
      /\ \A k \in Wholes(was) : (\A j \in 1..Len(e.of) : Contains(was[k], was[e.of[j]])) => Contains(was[k], rs[e.r])
\* stripping keeps the text
Kept == i > 0 /\ ph = "run" => LET e == rn.ev[i] IN e.op = "strip" => Str(rs[e.r]) = Str(was[e.a])
\* containment is a partial order; positions grow with offsets
Order ==
  \A k, l \in Wholes(rs) :
    /\ Contains(rs[k], rs[k])
    /\ \A m \in Wholes(rs) : Contains(rs[k], rs[l]) /\ Contains(rs[l], rs[m]) => Contains(rs[k], rs[m])
    /\ SameSource(rs[k], rs[l]) /\ rs[k].at < rs[l].at =>
         LET a == Look(rs[k]) b == Look(rs[l]) IN a.line < b.line \/ (a.line = b.line /\ a.col < b.col)
=============================================================================

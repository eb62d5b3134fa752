------------------------------ MODULE ScanEnum ------------------------------
(* Every history of up to Depth operations on two or three scanners over      *)
(* small sources; the histories are written out and replayed on the code.     *)
EXTENDS Scanner, TLC, Json, IOUtils, CSV
OutFile == IOEnv.HISTORIES
Depth == atoi(IOEnv.DEPTH)
Regs == 3
Texts == {<<97, 10, 98>>, <<10, 10>>, <<195, 169, 97>>}

VARIABLES rs, ev, ph
vars == <<rs, ev, ph>>
N == <<>>
Base == [op |-> "", r |-> 1, a |-> 1, g |-> 3, n |-> 0, m |-> 0, s |-> N, file |-> N, re |-> "", of |-> N]
Ops ==
  {[Base EXCEPT !.op = "slice", !.r = r, !.a = a, !.n = n, !.m = m] : r \in 1..2, a \in 1..2, n \in 0..2, m \in 1..3}
  \cup {[Base EXCEPT !.op = o, !.r = 2, !.a = 1, !.n = n] : o \in {"skip", "eat"}, n \in 0..2}
  \cup {[Base EXCEPT !.op = "skip", !.r = 1, !.a = 1, !.n = n] : n \in 1..2}
  \cup {[Base EXCEPT !.op = "eat", !.r = 1, !.a = 2, !.n = 1]}
  \cup {[Base EXCEPT !.op = "eats", !.r = 2, !.a = 1, !.s = x] : x \in {<<>>, <<97>>, <<10>>, <<195, 169>>}}
  \cup {[Base EXCEPT !.op = "strip", !.r = r, !.a = 1] : r \in 1..2}
  \cup {[Base EXCEPT !.op = "merge", !.r = r, !.of = x] : r \in 1..3, x \in {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>}}
Starts ==
  {[Base EXCEPT !.op = "new", !.s = t, !.file = f] : t \in Texts, f \in {<<>>, <<102>>}}
  \cup {[Base EXCEPT !.op = "at", !.s = <<97, 10, 98>>, !.n = n, !.m = m] : n \in 0..3, m \in 0..2}
Init == rs = [k \in 1..Regs |-> Nil] /\ ev = <<>> /\ ph = "run"
Steps == IF ev = <<>> THEN Starts ELSE Ops
Go == /\ ph = "run" /\ Len(ev) <= Depth
      /\ \E e \in Steps : Allowed(rs, e) /\ rs' = Do(rs, e).rs /\ ev' = Append(ev, e) /\ ph' = "run"
Out == /\ ph = "run" /\ Len(ev) = Depth + 1 /\ ph' = "end"
       /\ CSVWrite("%1$s", <<ToJson(ev)>>, OutFile)
       /\ UNCHANGED <<rs, ev>>
Next == Go \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================

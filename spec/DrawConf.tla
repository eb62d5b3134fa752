------------------------------ MODULE DrawConf -------------------------------
(* Conformance of drawings of trees: a tree is drawn, its items are sorted,   *)
(* and it is drawn again.                                                     *)
EXTENDS Draw, FiniteSets, TLC, Json, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS
VARIABLES ci, ph, tree
vars == <<ci, ph, tree>>
cs == Cases[ci]
obs == cs.runs[1].obs

Init == ci \in 1..Len(Cases) /\ ph = "drawn" /\ tree = Cases[ci].tree
Verdict(v, m) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> 1, v |-> v, exp |-> m, n |-> 1])>>, OutFile)
Sort == /\ ph = "drawn"
        /\ IF obs.drawn = Drawn(tree) /\ obs.place = Place(tree)
           THEN ph' = "sorted" /\ tree' = <<tree[1], Arranged(tree[2])>>
           ELSE /\ ph' = "end" /\ UNCHANGED tree
                /\ Verdict("bad", [o |-> "drawn", drawn |-> Drawn(tree), place |-> Place(tree)])
        /\ UNCHANGED ci
Look == /\ ph = "sorted" /\ ph' = "end" /\ UNCHANGED <<ci, tree>>
        /\ IF obs.sorted = Drawn(tree) /\ obs.place2 = Place(tree) THEN Verdict("ok", [o |-> "ok"])
           ELSE Verdict("bad", [o |-> "sorted", drawn |-> Drawn(tree)])
Next == Sort \/ Look
Spec == Init /\ [][Next]_vars

\* sorting keeps the items, and the places are in order afterwards
InOrder == ph = "sorted" =>
  \A i \in 1..Len(tree[2]) : /\ i > 1 => Place(tree[2][i - 1]) <= Place(tree[2][i])
                             /\ \E j \in 1..Len(cs.tree[2]) : cs.tree[2][j] = tree[2][i]
=============================================================================

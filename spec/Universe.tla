------------------------------ MODULE Universe ------------------------------
(* Every small grammar.  Terms are built bottom up, level n holding all terms *)
(* with n nodes over the leaves and constructors of the chosen universe (SET);*)
(* each gives a grammar, which is written out in the notation of the harness  *)
(* and parsed by the real code on every short input.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
OutFile == IOEnv.HISTORIES
Size == atoi(IOEnv.DEPTH)
Set == IOEnv.SET

S(x) == [k |-> "S", s |-> x]
RE(x) == [k |-> "RE", s |-> x]
R(x) == [k |-> "R", r |-> x]
Nm(n, t) == [k |-> "N", nm |-> n, t |-> t]
Q(t, a, b) == [k |-> "Q", t |-> t, mn |-> a, mx |-> b]
C(t) == [k |-> "C", t |-> t]
L(t) == [k |-> "L", t |-> t]
X(n) == [k |-> "X", r |-> n]
Ref(n) == [k |-> "REF", r |-> n]
RefD(n, d) == [k |-> "REF", r |-> n, def |-> d]
D(t, sep, as, l, tr) == [k |-> "D", t |-> t, sep |-> sep, assoc |-> as, lead |-> l, trail |-> tr]
G(t, ns, rs) == [k |-> "G", t |-> t, g |-> [names |-> ns, rules |-> rs]]
Sq(xs) == [k |-> "Seq", xs |-> xs]
Alt(xs) == [k |-> "Oneof", xs |-> xs]

----------------------------------------------------------------------------
(* The universes: leaves, unary, n-ary and delimiter constructors *)
Leaves ==
  CASE Set = "choice"  -> {S("a"), S("b"), S("ab")}
    [] Set = "trees"   -> {S("a"), RE("(a)?b"), Nm("x", S("b")), R("t")}
    [] Set = "delims"  -> {S("a"), S(","), Nm("x", S("a"))}
    [] Set = "commits" -> {S("a"), C(S("a")), S("b"), C(S("b"))}
    [] Set = "refs"    -> {Nm("x", RE("[ab]")), Ref("x"), RefD("x", "a"), S("b"), R("t")}
    [] Set = "looks"   -> {S("a"), RE("[ab]"), C(S("b"))}
    [] Set = "stack"   -> {S("a"), S("b"), R("@")}
    [] Set = "wrap"    -> {S("a"), RE("b*"), S(" b")}
    [] Set = "scopes"  -> {S("a"), R("t"), R("u")}
    [] Set = "lists"   -> {S("a"), Nm("x", S("b")), R("t")}
    [] Set = "chains"  -> {S("a"), S(","), Nm("x", S("a")), R("t")}
    [] Set = "calls"   -> {S("a"), C(S("b")), X("p"), Nm("x", RE("[ab]"))}
    [] Set = "escapes" -> {S("a"), RE("[ab]")}
    [] Set = "loops"   -> {S("x"), R("s"), R("t")}
    [] Set = "pairs"   -> {S("a"), S("b"), RE("a"), R("a"), X("a"), Ref("a"), RefD("a", "a"), RefD("a", "b"), RefD("b", "a")}
    [] Set = "texts"   -> {S("a"), R("t"), RE("a"), Ref("x"), X("e")}
Unary(ts) ==
  CASE Set = "choice"  -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 0, 0) : t \in ts} \cup {Q(t, 1, 0) : t \in ts} \cup {Q(t, 2, 2) : t \in ts}
    [] Set = "trees"   -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 0, 0) : t \in ts} \cup {Nm("y", t) : t \in ts}
    [] Set = "delims"  -> {Q(t, 0, 1) : t \in ts}
    [] Set = "commits" -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 1, 0) : t \in ts}
    [] Set = "refs"    -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 1, 0) : t \in ts} \cup {Nm("x", t) : t \in ts}
    [] Set = "looks"   -> {L(t) : t \in ts} \cup {Q(t, 0, 0) : t \in ts}
    [] Set = "stack"   -> {Q(t, 0, 1) : t \in ts} \cup {Nm("x", t) : t \in ts}
    [] Set = "wrap"    -> {Q(t, 0, 1) : t \in ts}
    [] Set = "scopes"  -> {Q(t, 0, 1) : t \in ts}
                          \cup {G(t, <<"t">>, [t |-> b]) : t \in ts, b \in {S("b"), R("u")}}
                          \cup {G(t, <<"u">>, [u |-> b]) : t \in ts, b \in {S("b"), Sq(<<S("b"), R("t")>>)}}
    [] Set = "lists"   -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 0, 0) : t \in ts} \cup {Q(t, 1, 2) : t \in ts} \cup {Nm("x", t) : t \in ts} \cup {Nm("y", t) : t \in ts}
    [] Set = "chains"  -> {Q(t, 0, 1) : t \in ts} \cup {Nm("x", t) : t \in ts}
    [] Set = "calls"   -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 1, 0) : t \in ts} \cup {L(t) : t \in ts}
    [] Set = "escapes" -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 1, 0) : t \in ts} \cup {Nm("x", t) : t \in ts} \cup {L(t) : t \in ts}
    [] Set = "loops"   -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 0, 2) : t \in ts} \cup {Nm("x", t) : t \in ts}
    [] Set = "pairs"   -> UNION {{Q(t, 0, 1), Q(t, 0, 2), Q(t, 1, 2), Nm("x", t), Nm("y", t), L(t), C(t), [k |-> "Stack", xs |-> <<t, t>>],
                                  Sq(<<t, t>>), Sq(<<t, S("a")>>), Sq(<<t, S("a"), S("a")>>), Alt(<<t, S("a")>>),
                                  G(t, <<"a">>, [a |-> S("a")]), G(t, <<"a">>, [a |-> S("b")]), G(t, <<"b">>, [b |-> S("a")])} : t \in ts}
                          \cup {D(t, s, as, l, tr) : t \in ts \cap {S("a"), S("b")}, s \in {S("a"), RE("a")}, as \in {0, 1, -1}, l \in BOOLEAN, tr \in BOOLEAN}
    [] Set = "texts"   -> {Q(t, 0, 1) : t \in ts} \cup {Q(t, 1, 0) : t \in ts} \cup {Q(t, 1, 2) : t \in ts} \cup {Nm("x", t) : t \in ts} \cup {L(t) : t \in ts}
Delims(ts, ss) ==
  IF Set \notin {"delims", "chains", "escapes", "texts"} THEN {} ELSE
  {D(t, s, as, l, tr) : t \in ts, s \in ss, as \in {0, 1, -1}, l \in BOOLEAN, tr \in BOOLEAN}

----------------------------------------------------------------------------
VARIABLES tb, gr, ph
vars == <<tb, gr, ph>>

RECURSIVE Lists(_, _)
Lists(t, n) == IF n = 0 THEN {<<>>}
               ELSE UNION {{<<x>> \o xs : x \in t[i], xs \in Lists(t, n - i)} : i \in 1..n}
Many(t, n) == {xs \in Lists(t, n) : Len(xs) >= 2}
Level(t) == LET n == Len(t) IN
  Unary(t[n]) \cup {Sq(xs) : xs \in Many(t, n)} \cup {Alt(xs) : xs \in Many(t, n)}
  \cup UNION {Delims(t[i], t[n - i]) : i \in 1..(n - 1)}

\* grammars around a term
One(t) == [names |-> <<"s">>, rules |-> [s |-> t]]
With(t, u) == [names |-> <<"s", "t">>, rules |-> [s |-> t, t |-> u]]
Three(t, u, v) == [names |-> <<"s", "t", "u">>, rules |-> [s |-> t, t |-> u, u |-> v]]
Wrapped(t, w) == [names |-> <<"s", ".wrapRE">>, rules |-> [x \in {"s", ".wrapRE"} |-> IF x = "s" THEN t ELSE w]]
Grammars(t) ==
  CASE Set \in {"trees", "lists", "chains"} -> {With(t, Sq(<<S("a"), Nm("x", S("b"))>>))}
    [] Set = "loops" -> {With(t, u) : u \in {R("s"), Sq(<<Q(R("s"), 0, 1), S("y")>>), Sq(<<S("y"), R("s")>>), Alt(<<S("y"), R("t")>>),
                          Sq(<<Q(S("y"), 0, 0), R("s")>>), Q(S("y"), 0, 1)}}
    [] Set = "pairs" -> {One(t)} \cup (IF t \in Leaves THEN {With(t, u) : u \in {S("a"), S("b")}} ELSE {})
    [] Set = "texts" -> {With(t, S("b")), With([k |-> "Stack", xs |-> <<t, Sq(<<S("b"), R("t")>>)>>], S("c"))}
    [] Set = "refs" -> {With(t, Sq(<<Ref("x"), Nm("x", S("a"))>>)), With(t, Nm("x", S("a")))}
    [] Set = "stack" -> {One([k |-> "Stack", xs |-> xs]) : xs \in {<<t, S("a")>>, <<t, Sq(<<S("b"), R("@")>>)>>, <<Sq(<<R("@"), S("b")>>), t>>,
                           <<D(R("@"), S("b"), 0, FALSE, FALSE), t, Sq(<<S("a"), Q(Sq(<<S("b"), R("@"), S("b")>>), 0, 1)>>)>>}}
    [] Set = "wrap" -> {Wrapped(t, w) : w \in {RE(" *() *"), RE("()( *)"), Alt(<<S("a"), RE(" *()")>>)}}
    [] Set = "scopes" -> {Three(t, S("a"), Sq(<<R("t"), S("c")>>)), Three(t, R("u"), S("c"))}
    [] OTHER -> {One(t)}

Init == tb = <<Leaves>> /\ gr = <<>> /\ ph = "grow"
Grow == ph = "grow" /\ Len(tb) < Size /\ tb' = Append(tb, Level(tb)) /\ UNCHANGED <<gr, ph>>
Pick == /\ ph = "grow" /\ Len(tb) = Size
        /\ \E n \in 1..Size : \E t \in tb[n] : \E g \in Grammars(t) : gr' = <<g>>
        /\ tb' = <<>> /\ ph' = "write"
Write == /\ ph = "write" /\ CSVWrite("%1$s", <<ToJson(gr[1])>>, OutFile)
         /\ gr' = <<>> /\ ph' = "end" /\ UNCHANGED tb
Next == Grow \/ Pick \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================

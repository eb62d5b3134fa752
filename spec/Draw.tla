-------------------------------- MODULE Draw ---------------------------------
(* Trees drawn as text.  A tree is <<text, items>>, texts are sequences of    *)
(* code points.                                                               *)
EXTENDS Integers, Sequences

RECURSIVE Place(_), LeastPlace(_), Put1(_, _), InPlace(_), LinesOf(_, _), DrawnItems(_, _)

Digit(x) == x >= 48 /\ x <= 57
LeadingNumber(s) ==
  LET RECURSIVE go(_, _)
      go(i, n) == IF i > Len(s) THEN n ELSE IF Digit(s[i]) THEN go(i + 1, 10 * n + s[i] - 48) ELSE n
  IN go(1, 0)

\* where a tree belongs among its siblings: at the place its text starts with,
\* or else where the first of its items belongs; before all places without any
Place(t) == IF t[1] # <<>> /\ Digit(t[1][1]) /\ t[1][1] # 48 THEN LeadingNumber(t[1])
            ELSE IF t[2] = <<>> THEN -1 ELSE LeastPlace(t[2])
LeastPlace(ts) == LET p == Place(Head(ts)) IN
                  IF Len(ts) = 1 THEN p ELSE LET q == LeastPlace(Tail(ts)) IN IF p <= q THEN p ELSE q

\* in order of their places, those of the same place in the order given
Placed(ts) == [i \in 1..Len(ts) |-> <<Place(ts[i]), ts[i]>>]
Put1(x, ps) == IF ps = <<>> THEN <<x>> ELSE IF x[1] <= Head(ps)[1] THEN <<x>> \o ps ELSE <<Head(ps)>> \o Put1(x, Tail(ps))
InPlace(ps) == IF ps = <<>> THEN <<>> ELSE Put1(Head(ps), InPlace(Tail(ps)))
Arranged(ts) == LET ps == InPlace(Placed(ts)) IN [i \in 1..Len(ps) |-> ps[i][2]]

\* a line for the root and one for each item, and for each further line of a text
LinesOf(s, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = 10 THEN <<acc>> \o LinesOf(Tail(s), <<>>) ELSE LinesOf(Tail(s), Append(acc, Head(s)))
Blank == <<32, 32, 32, 32>>
Bar == <<9474, 32, 32, 32>>
Fork == <<9500, 9472, 9472, 32>>
Hook == <<9492, 9472, 9472, 32>>
DrawnText(s, prefix, last) ==
  LET ls == LinesOf(s, <<>>)
      RECURSIVE go(_)
      go(i) == IF i > Len(ls) THEN <<>>
               ELSE prefix \o (IF i = 1 THEN (IF last THEN Hook ELSE Fork) ELSE IF last THEN Blank ELSE Bar)
                    \o ls[i] \o <<10>> \o go(i + 1)
  IN go(1)
DrawnItems(ts, prefix) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(ts) THEN <<>>
               ELSE DrawnText(ts[i][1], prefix, i = Len(ts))
                    \o DrawnItems(ts[i][2], prefix \o (IF i = Len(ts) THEN Blank ELSE Bar)) \o go(i + 1)
  IN go(1)
Drawn(t) == t[1] \o <<10>> \o DrawnItems(t[2], <<>>)
=============================================================================

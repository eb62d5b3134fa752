------------------------------- MODULE Regex -------------------------------
(* Terminals.  A regular expression is a record with an operator `o`; the     *)
(* matcher yields the ordered list of match ends (first = preferred), which   *)
(* is the leftmost-first semantics of the regular expressions the system      *)
(* uses.  A match state is <<pos, hole interval, first group interval>>;      *)
(* "hole" stands for the term's own expression inside a whitespace wrapper.   *)
EXTENDS Integers, Sequences

\* keep the first state for each end position
RECURSIVE Dedup(_, _)
Dedup(xs, seen) ==
  IF xs = <<>> THEN <<>>
  ELSE IF Head(xs)[1] \in seen THEN Dedup(Tail(xs), seen)
  ELSE <<Head(xs)>> \o Dedup(Tail(xs), seen \cup {Head(xs)[1]})

InRanges(ch, rs) == \E i \in 1..Len(rs) : rs[i][1] <= ch /\ ch <= rs[i][2]

\* codes cs occur in `in` at (0-based) position p
LitAt(in, p, cs) ==
  /\ p + Len(cs) <= Len(in)
  /\ \A i \in 1..Len(cs) : in[p + i] = cs[i]

\* e = [in, b (start of the slice handed to the matcher), hole]
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), AltEnds(_, _, _, _), RepEnds(_, _, _, _, _), FlatMap(_, _, _, _)

\* concatenation of CatEnds over all states xs
FlatMap(e, rest, i, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE CatEnds(e, rest, i, Head(xs)) \o FlatMap(e, rest, i, Tail(xs))

CatEnds(e, xs, i, x) ==
  IF i > Len(xs) THEN <<x>>
  ELSE Dedup(FlatMap(e, xs, i + 1, Ends(e, xs[i], x)), {})

AltEnds(e, xs, i, x) ==
  IF i > Len(xs) THEN <<>> ELSE Ends(e, xs[i], x) \o AltEnds(e, xs, i + 1, x)

\* bodies of repetitions never match the empty string
RECURSIVE RepOver(_, _, _, _, _)
RepOver(e, r, mn, mx, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE RepEnds(e, r, mn, mx, Head(xs)) \o RepOver(e, r, mn, mx, Tail(xs))

RepEnds(e, r, mn, mx, x) ==
  LET dec(n) == IF n > 0 THEN n - 1 ELSE n
      more == IF mx = 0 THEN <<>>
              ELSE RepOver(e, r, dec(mn), dec(mx), Ends(e, r.x, x))
      stop == IF mn = 0 THEN <<x>> ELSE <<>>
  IN Dedup(IF r.lazy THEN stop \o more ELSE more \o stop, {})

Ends(e, r, x) ==
  LET p == x[1] n == Len(e.in) IN
  CASE r.o = "lit" -> IF LitAt(e.in, p, r.s) THEN <<<<p + Len(r.s), x[2], x[3]>>>> ELSE <<>>
    [] r.o = "chs" -> IF p < n /\ (InRanges(e.in[p + 1], r.rs) # r.neg)
                      THEN <<<<p + 1, x[2], x[3]>>>> ELSE <<>>
    [] r.o = "any" -> IF p < n /\ e.in[p + 1] # 10 THEN <<<<p + 1, x[2], x[3]>>>> ELSE <<>>
    [] r.o = "cat" -> CatEnds(e, r.xs, 1, x)
    [] r.o = "alt" -> Dedup(AltEnds(e, r.xs, 1, x), {})
    [] r.o = "rep" -> RepEnds(e, r, r.mn, r.mx, x)
    [] r.o = "grp" -> LET ys == Ends(e, r.x, x) IN
                      IF r.i # 1 THEN ys
                      ELSE [j \in 1..Len(ys) |-> <<ys[j][1], ys[j][2], <<p, ys[j][1]>>>>]
    [] r.o = "hole" -> LET ys == Ends(e, e.hole, x) IN
                      [j \in 1..Len(ys) |-> <<ys[j][1], <<p, ys[j][1]>>, ys[j][3]>>]
    [] r.o = "bol" -> IF p = e.b \/ (p > 0 /\ e.in[p] = 10) THEN <<x>> ELSE <<>>
    [] r.o = "eol" -> IF p = n \/ e.in[p + 1] = 10 THEN <<x>> ELSE <<>>
    [] r.o = "emp" -> <<x>>

HoleRx == [o |-> "hole"]

\* The same semantics by backtracking: the first way to match the expressions
\* ks one after the other from state x, <<>> if there is none.  "end" marks the
\* end of a group ("hole" for the term's own expression) that started at b.
RECURSIVE First(_, _, _), FirstAlt(_, _, _, _, _)
FirstAlt(e, xs, i, ks, x) ==
  IF i > Len(xs) THEN <<>>
  ELSE LET y == First(e, <<xs[i]>> \o ks, x) IN IF y # <<>> THEN y ELSE FirstAlt(e, xs, i + 1, ks, x)
First(e, ks, x) ==
  IF ks = <<>> THEN x ELSE
  LET r == Head(ks) rest == Tail(ks) p == x[1] n == Len(e.in) IN
  CASE r.o = "lit" -> IF LitAt(e.in, p, r.s) THEN First(e, rest, <<p + Len(r.s), x[2], x[3]>>) ELSE <<>>
    [] r.o = "chs" -> IF p < n /\ (InRanges(e.in[p + 1], r.rs) # r.neg)
                      THEN First(e, rest, <<p + 1, x[2], x[3]>>) ELSE <<>>
    [] r.o = "any" -> IF p < n /\ e.in[p + 1] # 10 THEN First(e, rest, <<p + 1, x[2], x[3]>>) ELSE <<>>
    [] r.o = "cat" -> First(e, r.xs \o rest, x)
    [] r.o = "alt" -> FirstAlt(e, r.xs, 1, rest, x)
    [] r.o = "rep" ->
         LET dec(k) == IF k > 0 THEN k - 1 ELSE k
             again == <<r.x, [r EXCEPT !.mn = dec(@), !.mx = dec(@)]>> \o rest
             more == IF r.mx = 0 THEN <<>> ELSE First(e, again, x)
             stop == IF r.mn > 0 THEN <<>> ELSE First(e, rest, x)
         IN IF r.lazy THEN (IF stop # <<>> THEN stop ELSE more)
            ELSE (IF more # <<>> THEN more ELSE stop)
    [] r.o = "grp" -> First(e, <<r.x, [o |-> "end", i |-> r.i, b |-> p]>> \o rest, x)
    [] r.o = "hole" -> First(e, <<e.hole, [o |-> "end", i |-> 0, b |-> p]>> \o rest, x)
    [] r.o = "end" -> First(e, rest, IF r.i = 0 THEN <<p, <<r.b, p>>, x[3]>>
                                     ELSE IF r.i = 1 THEN <<p, x[2], <<r.b, p>>>> ELSE x)
    [] r.o = "bol" -> IF p = e.b \/ (p > 0 /\ e.in[p] = 10) THEN First(e, rest, x) ELSE <<>>
    [] r.o = "eol" -> IF p = n \/ e.in[p + 1] = 10 THEN First(e, rest, x) ELSE <<>>
    [] r.o = "emp" -> First(e, rest, x)

\* Match the term expression `rx` inside `wrap` at position p of `in`.
\* Result: <<end, from, to>> (leaf interval) or <<>>.
Leaf(y) == IF y = <<>> THEN <<>>
           ELSE LET leaf == IF y[3] # <<>> THEN y[3] ELSE y[2] IN <<y[1], leaf[1], leaf[2]>>
MatchRx(in, p, wrap, rx) == Leaf(First([in |-> in, b |-> p, hole |-> rx], <<wrap>>, <<p, <<>>, <<>>>>))
\* the two definitions of matching agree
MatchAll(in, p, wrap, rx) ==
  LET ys == Ends([in |-> in, b |-> p, hole |-> rx], wrap, <<p, <<>>, <<>>>>)
  IN IF ys = <<>> THEN <<>> ELSE Leaf(ys[1])
=============================================================================

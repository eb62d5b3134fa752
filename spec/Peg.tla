--------------------------------- MODULE Peg ---------------------------------
(* Denotational ordered-choice semantics, independent of the machine: a term *)
(* denotes a function from position and bindings to <<end, tree>> or <<>>.    *)
(* It covers everything without commit points, externals and escapes.         *)
EXTENDS Engine

RECURSIVE Peg(_, _, _, _, _), PegSeq(_, _, _, _, _, _, _), PegAlt(_, _, _, _, _, _), PegRep(_, _, _, _, _, _)

PegSeq(cs, in, c, i, p, b, acc) ==
  LET xs == Items(cs, c) IN
  IF i > Len(xs) THEN <<p, Nd(TagOf(cs, c), NoX, acc)>>
  ELSE LET r == Peg(cs, in, Norm(cs, xs[i]), p, b) id == Ident(cs, xs[i]) IN
       IF r = <<>> THEN <<>>
       ELSE PegSeq(cs, in, c, i + 1, r[1],
                   IF id \in DOMAIN b THEN [b EXCEPT ![id] = <<r[2]>>] ELSE b, Append(acc, r[2]))

PegAlt(cs, in, c, i, p, b) ==
  LET xs == cs.T[c.t].xs IN
  IF i > Len(xs) THEN <<>>
  ELSE LET r == Peg(cs, in, Norm(cs, Sub(c, xs[i])), p, b) IN
       IF r # <<>> THEN <<r[1], Nd(TagOf(cs, c), <<"c", i - 1>>, <<r[2]>>)>>
       ELSE PegAlt(cs, in, c, i + 1, p, b)

\* greedy, at most mx (0 = unbounded) and at least mn; an unbounded repetition
\* ends after a match that consumes nothing
PegRep(cs, in, c, p, b, acc) ==
  LET mn == QMin(cs, c) mx == QMax(cs, c)
      done == IF Len(acc) >= mn THEN <<p, Nd(TagOf(cs, c), NoX, acc)>> ELSE <<>>
  IN IF mx # 0 /\ Len(acc) = mx THEN done
     ELSE LET r == Peg(cs, in, Norm(cs, QBody(cs, c)), p, b) IN
          IF r = <<>> THEN done
          ELSE IF mx = 0 /\ r[1] = p /\ Len(acc) + 1 >= mn
               THEN <<p, Nd(TagOf(cs, c), NoX, Append(acc, r[2]))>>
          ELSE PegRep(cs, in, c, r[1], b, Append(acc, r[2]))

Peg(cs, in, c, p, b) ==
  LET k == Kind(cs, c) t == cs.T[c.t] IN
  CASE k \in {"S", "RE"} ->
         LET m == MatchRx(in, p, Wrapper(cs, c.env, t.src), IF k = "S" THEN [o |-> "lit", s |-> t.s] ELSE t.re)
         IN IF m = <<>> THEN <<>> ELSE <<m[1], Lf(m[2], m[3])>>
    [] k = "Seq" -> PegSeq(cs, in, c, 1, p, b, <<>>)
    [] k = "Oneof" -> PegAlt(cs, in, c, 1, p, b)
    [] k = "Q" -> PegRep(cs, in, c, p, b, <<>>)
    [] k = "D" -> LET r == Peg(cs, in, Virt(c, 1, c.nm), p, b) IN
                  IF r = <<>> THEN <<>> ELSE <<r[1], DelimTree(t, TagOf(cs, c), r[2])>>
    [] k = "L" -> LET r == Peg(cs, in, Norm(cs, Sub(c, t.t)), p, b) IN
                  IF r = <<>> THEN <<>> ELSE <<p, Nd(TagOf(cs, c), NoX, <<r[2]>>)>>
    [] k = "REF" -> IF b[t.r] # <<>>
                    THEN LET m == RefMatch(in, p, b[t.r][1], t.r) IN IF m.ok THEN <<m.pos, m.tree>> ELSE <<>>
                    ELSE IF t.d # <<>> /\ LitAt(in, p, t.d[1])
                    THEN <<p + Len(t.d[1]), Lf(p, p + Len(t.d[1]))>> ELSE <<>>
=============================================================================

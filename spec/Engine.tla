------------------------------- MODULE Engine -------------------------------
(* The parsing machine of the system as a state-transition system.            *)
(*                                                                            *)
(* A case `cs` carries                                                        *)
(*   T     sequence of terms (records, `k` is the kind, children are indices) *)
(*   G     sequence of grammars [rules, par, wrap]; par = 0 for the outermost *)
(*   refs  names whose bindings matter (used by back-references or probes)    *)
(* and a run `rn` carries                                                     *)
(*   rule, in (code points), ext (scripted handlers), esc (scripted escape)   *)
(*                                                                            *)
(* A control is [t, v, nm, env, at]: term index, virtual part of a delimiter, *)
(* label, grammar index, and position in a precedence stack <<rule, i, n>>.   *)
(* Positions are 0-based indices into `in`.  Trees are tuples                 *)
(*   <<"N", tag, extra, kids>>, <<"L", from, to>>, <<"E">>                    *)
(* with extra <<"n", 0>>, <<"c", choice>> or <<"a", associativity>>.          *)
EXTENDS Integers, Sequences, TLC, Regex

NoX == <<"n", 0>>
Nd(tag, x, kids) == <<"N", tag, x, kids>>
Lf(a, b) == <<"L", a, b>>
EmptyEl == <<"E">>
NoCp == -1

----------------------------------------------------------------------------
(* Static structure *)

Ctl(t, nm, env, at) == [t |-> t, v |-> 0, nm |-> nm, env |-> env, at |-> at]
Sub(c, t) == Ctl(t, "", c.env, c.at)
Virt(c, v, nm) == [t |-> c.t, v |-> v, nm |-> nm, env |-> c.env, at |-> c.at]

HasRule(cs, env, r) == r \in DOMAIN cs.G[env].rules
LayerTag(r, i) == IF i = 1 THEN r ELSE r \o "@" \o ToString(i - 1)

\* The control of rule r as seen from grammar env: nearest enclosing grammar
\* that defines it.  A rule whose body is just another rule of the same grammar
\* parses as that rule's body under its own label.
RECURSIVE RuleCtl(_, _, _), Chase(_, _, _, _, _)
Chase(cs, id, tag, env, at) ==
  LET t == cs.T[id] IN
  IF t.k = "Stack" THEN Chase(cs, t.xs[1], tag, env, <<at[1], 1, Len(t.xs)>>)
  ELSE IF t.k = "C" /\ Len(at) = 3 THEN Chase(cs, t.t, tag, env, at)
  ELSE IF t.k # "R" THEN Ctl(id, tag, env, at)
  ELSE IF t.r = "@" THEN
       LET nx == IF at[2] = at[3] THEN 1 ELSE at[2] + 1
           stk == cs.T[cs.G[env].rules[at[1]]]
       IN Chase(cs, stk.xs[nx], tag, env, <<at[1], nx, at[3]>>)
  ELSE IF HasRule(cs, env, t.r)
       THEN Chase(cs, cs.G[env].rules[t.r], tag, env, <<t.r>>)
  ELSE RuleCtl(cs, t.r, cs.G[env].par)
RuleCtl(cs, r, env) ==
  IF HasRule(cs, env, r) THEN Chase(cs, cs.G[env].rules[r], r, env, <<r>>)
  ELSE RuleCtl(cs, r, cs.G[env].par)

\* Strip labels, commit markers, nested grammars and references.
RECURSIVE Norm(_, _)
Norm(cs, c) ==
  IF c.v # 0 THEN c ELSE
  LET t == cs.T[c.t] IN
  CASE t.k = "N" -> Norm(cs, [c EXCEPT !.t = t.t, !.nm = t.nm])
    [] t.k = "C" -> Norm(cs, [c EXCEPT !.t = t.t])
    [] t.k = "G" -> Norm(cs, [c EXCEPT !.t = t.t, !.env = t.g, !.at = <<>>])
    [] t.k = "R" ->
        IF t.r = "@"
        THEN LET nx == IF c.at[2] = c.at[3] THEN 1 ELSE c.at[2] + 1
                 stk == cs.T[cs.G[c.env].rules[c.at[1]]]
             IN Norm(cs, Chase(cs, stk.xs[nx], LayerTag(c.at[1], nx), c.env, <<c.at[1], nx, c.at[3]>>))
        ELSE Norm(cs, RuleCtl(cs, t.r, c.env))
    [] OTHER -> c

\* kind of a normalised control; the parts of a delimiter  a:b  are
\*   1 the sequence  b? (3) b?   2 the optional b   3 the sequence  a (4)
\*   4 the repetition  (5)*      5 the sequence  b a
Kind(cs, c) == CASE c.v = 0 -> cs.T[c.t].k
                 [] c.v \in {1, 3, 5} -> "Seq"
                 [] c.v \in {2, 4} -> "Q"

\* raw (not normalised) items of a sequence, as controls
Items(cs, c) ==
  LET t == cs.T[c.t] IN
  CASE c.v = 0 -> [i \in 1..Len(t.xs) |-> Sub(c, t.xs[i])]
    [] c.v = 1 -> (IF t.lead THEN <<Virt(c, 2, "")>> ELSE <<>>) \o <<Virt(c, 3, "")>>
                  \o (IF t.trail THEN <<Virt(c, 2, "")>> ELSE <<>>)
    [] c.v = 3 -> <<Sub(c, t.t), Virt(c, 4, "")>>
    [] c.v = 5 -> <<Sub(c, t.s), Sub(c, t.t)>>

QBody(cs, c) == CASE c.v = 0 -> Sub(c, cs.T[c.t].t)
                  [] c.v = 2 -> Sub(c, cs.T[c.t].s)
                  [] c.v = 4 -> Virt(c, 5, "")
QMin(cs, c) == IF c.v = 0 THEN cs.T[c.t].mn ELSE 0
QMax(cs, c) == IF c.v = 0 THEN cs.T[c.t].mx ELSE IF c.v = 2 THEN 1 ELSE 0

\* name under which a sequence item is bound ("" = not bound)
RECURSIVE TermIdent(_, _, _)
TermIdent(cs, id, at) ==
  LET t == cs.T[id] IN
  CASE t.k = "N" -> IF t.nm # "" THEN t.nm ELSE TermIdent(cs, t.t, at)
    [] t.k = "R" -> IF t.r = "@" THEN LayerTag(at[1], IF at[2] = at[3] THEN 1 ELSE at[2] + 1) ELSE t.r
    [] t.k = "Q" -> TermIdent(cs, t.t, at)
    [] t.k = "C" /\ Len(at) = 3 -> TermIdent(cs, t.t, at)  \* dropped in a precedence stack
    [] OTHER -> ""
Ident(cs, c) == CASE c.v = 0 -> TermIdent(cs, c.t, c.at)
                  [] c.v = 2 -> TermIdent(cs, cs.T[c.t].s, c.at)
                  [] OTHER -> ""

\* is a sequence item itself a commit point?
RECURSIVE TermCut(_, _)
TermCut(cs, id) == LET t == cs.T[id] IN
  CASE t.k = "C" -> TRUE
    [] t.k \in {"N", "G"} -> TermCut(cs, t.t)
    [] OTHER -> FALSE
\* inside a precedence stack commit points are dropped
IsCut(cs, c) == c.v = 0 /\ Len(c.at) # 3 /\ TermCut(cs, c.t)

\* whitespace wrapper in force in grammar env
RECURSIVE WrapOf(_, _)
WrapOf(cs, env) ==
  IF cs.G[env].wrap # <<>> THEN cs.G[env].wrap[1]
  ELSE IF cs.G[env].par = 0 THEN [exc |-> <<>>, re |-> HoleRx]
  ELSE WrapOf(cs, cs.G[env].par)
Wrapper(cs, env, src) ==
  LET w == WrapOf(cs, env) IN
  IF \E i \in 1..Len(w.exc) : w.exc[i] = src THEN HoleRx ELSE w.re

DefTag(k) == CASE k = "Seq" -> "_" [] k = "Oneof" -> "|" [] k = "D" -> ":"
               [] k = "Q" -> "?" [] k = "L" -> "?=" [] OTHER -> ""
TagOf(cs, c) == IF c.nm # "" THEN c.nm ELSE DefTag(Kind(cs, c))

----------------------------------------------------------------------------
(* Back-references: the tokens of the bound tree, as a sequence of literals *)

TextEq(in, p, q, len) == p + len <= Len(in) /\ \A i \in 1..len : in[p + i] = in[q + i]

\* match the tokens of tree e at p.  [ok, pos, tree]; on failure pos is the
\* position of the failing token and `top` that of the failing top-level item
RECURSIVE RefMatch(_, _, _, _), RefKids(_, _, _, _, _)
RefMatch(in, p, e, tag) ==
  IF e[1] = "L" THEN
    LET len == e[3] - e[2] IN
    IF TextEq(in, p, e[2], len) THEN [ok |-> TRUE, pos |-> p + len, top |-> p, tree |-> Lf(p, p + len)]
    ELSE [ok |-> FALSE, pos |-> p, top |-> p, tree |-> EmptyEl]
  ELSE RefKids(in, p, e[4], <<>>, tag)
RefKids(in, p, kids, acc, tag) ==
  IF kids = <<>> THEN [ok |-> TRUE, pos |-> p, top |-> p, tree |-> Nd(tag, NoX, acc)]
  ELSE LET r == RefMatch(in, p, Head(kids), "_") IN
       IF r.ok THEN RefKids(in, r.pos, Tail(kids), Append(acc, r.tree), tag)
       ELSE [ok |-> FALSE, pos |-> r.pos, top |-> p, tree |-> EmptyEl]

\* text of a tree: the intervals of its tokens
RECURSIVE Tokens(_), KidTokens(_)
Tokens(e) == IF e[1] = "L" THEN <<<<e[2], e[3]>>>> ELSE IF e[1] = "E" THEN <<>> ELSE KidTokens(e[4])
KidTokens(ks) == IF ks = <<>> THEN <<>> ELSE Tokens(Head(ks)) \o KidTokens(Tail(ks))

----------------------------------------------------------------------------
(* Results *)

Ok(pos, tree) == [o |-> "ok", pos |-> pos, tree |-> tree, cp |-> NoCp]
Fail(pos, cp) == [o |-> IF cp >= 0 THEN "fatal" ELSE "err", pos |-> pos, tree |-> EmptyEl, cp |-> cp]
Stop(pos) == [o |-> "stop", pos |-> pos, tree |-> EmptyEl, cp |-> NoCp]
NotMine(r, my) == r.o = "stop" \/ (r.o = "fatal" /\ r.cp # my)

\* regroup the tree of a delimiter's sequence
RECURSIVE Alternate(_), FoldL(_, _, _, _), FoldR(_, _, _, _)
Alternate(pairs) == IF pairs = <<>> THEN <<>> ELSE Head(pairs)[4] \o Alternate(Tail(pairs))
FoldL(tag, v, xs, i) == IF i > Len(xs) THEN v
                        ELSE FoldL(tag, Nd(tag, <<"a", 1>>, <<v, xs[i], xs[i + 1]>>), xs, i + 2)
FoldR(tag, v, xs, i) == IF i < 1 THEN v
                        ELSE FoldR(tag, Nd(tag, <<"a", -1>>, <<xs[i - 1], xs[i], v>>), xs, i - 2)
DelimTree(t, tag, out) ==
  LET kids == out[4]
      core == kids[IF t.lead THEN 2 ELSE 1]
      lead == IF t.lead /\ kids[1][4] # <<>> THEN <<EmptyEl, kids[1][4][1]>> ELSE <<>>
      last == kids[Len(kids)]
      trail == IF t.trail /\ last[4] # <<>> THEN <<last[4][1], EmptyEl>> ELSE <<>>
      all == lead \o <<core[4][1]>> \o Alternate(core[4][2][4]) \o trail
      n == Len(all)
  IN IF n > 1 /\ t.assoc = 1 THEN FoldL(tag, all[1], all, 2)
     ELSE IF n > 1 /\ t.assoc = -1 THEN FoldR(tag, all[n], all, n - 1)
     ELSE Nd(tag, <<"a", 0>>, all)

----------------------------------------------------------------------------
(* The machine.  mode "eval": run control c at pos in scope sc;  "ret": hand *)
(* res to the top frame;  "done": res is the outcome.                        *)
(* A scope is [b (bindings), cp (current commit id), esc (escape active)].   *)

NoBind(cs) == [x \in {cs.refs[i] : i \in 1..Len(cs.refs)} |-> <<>>]
Scope0(cs, esc) == [b |-> NoBind(cs), cp |-> NoCp, esc |-> esc]
Bind(sc, nm, tree) == IF nm \in DOMAIN sc.b THEN [sc EXCEPT !.b[nm] = <<tree>>] ELSE sc

Start(cs, rn) ==
  [mode |-> "eval", c |-> Norm(cs, RuleCtl(cs, rn.rule, 1)), pos |-> 0,
   sc |-> Scope0(cs, rn.esc.on), k |-> <<>>, res |-> Ok(0, EmptyEl), ncp |-> 0, log |-> <<>>, n |-> 0]

Top(s) == s.k[Len(s.k)]
Pop(s) == SubSeq(s.k, 1, Len(s.k) - 1)
SetTop(s, f) == [s.k EXCEPT ![Len(s.k)] = f]
Ret(s, r) == [s EXCEPT !.mode = "ret", !.res = r, !.n = @ + 1]
RetPop(s, r) == [s EXCEPT !.mode = "ret", !.res = r, !.k = Pop(s), !.n = @ + 1]
Eval(cs, s, c, pos, sc, k) ==
  [s EXCEPT !.mode = "eval", !.c = Norm(cs, c), !.pos = pos, !.sc = sc, !.k = k, !.n = @ + 1]

----------------------------------------------------------------------------
(* Escapes and external handlers (scripted by the run) *)

EscapeHere(s, rn) == s.sc.esc /\ LitAt(rn.in, s.pos, rn.esc.open)
\* close delimiter after a handler that stopped at p with tree te
EscClose(s, rn, p, te, k) ==
  LET r == IF LitAt(rn.in, p, rn.esc.close) THEN Ok(p + Len(rn.esc.close), te) ELSE Fail(p, NoCp)
  IN [s EXCEPT !.mode = "ret", !.res = r, !.k = k, !.n = @ + 1]

\* outcome of a scripted handler at position p: <<result, consumed position>>
ExtRun(h, in, p) ==
  CASE h.act = "ast" -> IF p + h.n <= Len(in) THEN Ok(p + h.n, Nd("extref", <<"b", p, p + h.n>>, <<>>)) ELSE Fail(p, NoCp)
    [] h.act = "eat" -> IF p + h.n <= Len(in) THEN Ok(p + h.n, Lf(p, p + h.n)) ELSE Fail(p, NoCp)
    [] h.act = "lit" -> IF LitAt(in, p, h.s) THEN Ok(p + Len(h.s), Nd("h", NoX, <<Lf(p, p + Len(h.s))>>))
                        ELSE Fail(p, NoCp)
    [] h.act = "err" -> Fail(IF p + h.n <= Len(in) THEN p + h.n ELSE p, NoCp)
    [] h.act = "stop" -> Stop(IF p + h.n <= Len(in) THEN p + h.n ELSE p)

BindLog(s) == [x \in DOMAIN s.sc.b |-> IF s.sc.b[x] = <<>> THEN <<0>> ELSE <<1, Tokens(s.sc.b[x][1])>>]

----------------------------------------------------------------------------
(* One transition *)

EvalEscape(cs, rn, s) ==
  LET p == s.pos + Len(rn.esc.open)
      s1 == [s EXCEPT !.log = Append(@, <<"*", p>>)]
  IN IF rn.esc.act = "sub"
     THEN Eval(cs, s1, RuleCtl(cs, rn.esc.rule, 1), p, Scope0(cs, FALSE), Append(s.k, [f |-> "esc"]))
     ELSE LET r == ExtRun(rn.esc, rn.in, p) IN
          IF r.o = "ok" THEN EscClose(s1, rn, r.pos, r.tree, s.k) ELSE Ret(s1, r)

EvalTerminal(cs, rn, s) ==
  LET t == cs.T[s.c.t]
      rx == IF t.k = "S" THEN [o |-> "lit", s |-> t.s] ELSE t.re
      m == MatchRx(rn.in, s.pos, Wrapper(cs, s.c.env, t.src), rx)
  IN IF m = <<>> THEN Ret(s, Fail(s.pos, s.sc.cp)) ELSE Ret(s, Ok(m[1], Lf(m[2], m[3])))

EvalSeq(cs, rn, s) ==
  LET xs == Items(cs, s.c) IN
  IF xs = <<>> THEN Ret(s, Ok(s.pos, Nd(TagOf(cs, s.c), NoX, <<>>)))
  ELSE Eval(cs, s, xs[1], s.pos, s.sc,
            Append(s.k, [f |-> "seq", c |-> s.c, i |-> 1, sc |-> s.sc, acc |-> <<>>, last |-> s.pos]))

\* alternatives and repetitions entered after a commit get an id of their own
Fresh(s) == IF s.sc.cp >= 0 THEN [sc |-> [s.sc EXCEPT !.cp = s.ncp], prev |-> s.sc.cp, my |-> s.ncp, ncp |-> s.ncp + 1]
            ELSE [sc |-> s.sc, prev |-> NoCp, my |-> NoCp, ncp |-> s.ncp]

EvalOneof(cs, rn, s) ==
  LET fr == Fresh(s) IN
  Eval(cs, [s EXCEPT !.ncp = fr.ncp], Sub(s.c, cs.T[s.c.t].xs[1]), s.pos, fr.sc,
       Append(s.k, [f |-> "one", c |-> s.c, i |-> 1, sc |-> fr.sc, prev |-> fr.prev, my |-> fr.my,
                    start |-> s.pos, far |-> s.pos]))

EvalQuant(cs, rn, s) ==
  LET fr == Fresh(s) IN
  Eval(cs, [s EXCEPT !.ncp = fr.ncp], QBody(cs, s.c), s.pos, fr.sc,
       Append(s.k, [f |-> "q", c |-> s.c, sc |-> fr.sc, prev |-> fr.prev, my |-> fr.my,
                    acc |-> <<>>, last |-> s.pos]))

EvalDelim(cs, rn, s) ==
  Eval(cs, s, Virt(s.c, 1, s.c.nm), s.pos, s.sc, Append(s.k, [f |-> "d", c |-> s.c]))

EvalLook(cs, rn, s) ==
  Eval(cs, s, Sub(s.c, cs.T[s.c.t].t), s.pos, s.sc, Append(s.k, [f |-> "l", c |-> s.c, start |-> s.pos]))

EvalRef(cs, rn, s) ==
  LET t == cs.T[s.c.t] IN
  IF s.sc.b[t.r] # <<>> THEN
    LET e == s.sc.b[t.r][1]
        m == RefMatch(rn.in, s.pos, e, t.r)
    IN IF m.ok THEN Ret(s, Ok(m.pos, m.tree))
       ELSE Ret(s, Fail(IF s.sc.cp >= 0 THEN m.pos ELSE m.top, s.sc.cp))
  ELSE IF t.d # <<>> THEN
    IF LitAt(rn.in, s.pos, t.d[1]) THEN Ret(s, Ok(s.pos + Len(t.d[1]), Lf(s.pos, s.pos + Len(t.d[1]))))
    ELSE Ret(s, Fail(s.pos, s.sc.cp))
  ELSE Ret(s, Fail(s.pos, NoCp))

EvalExt(cs, rn, s) ==
  LET x == cs.T[s.c.t].r IN
  IF x \notin DOMAIN rn.ext THEN Ret(s, [Fail(s.pos, NoCp) EXCEPT !.o = "fatal", !.cp = -2])
  ELSE Ret([s EXCEPT !.log = Append(@, <<x, s.pos, BindLog(s)>>)], ExtRun(rn.ext[x], rn.in, s.pos))

StepEval(cs, rn, s) ==
  IF s.c.v = 0 /\ EscapeHere(s, rn) THEN EvalEscape(cs, rn, s)
  ELSE LET k == Kind(cs, s.c) IN
  CASE k \in {"S", "RE"} -> EvalTerminal(cs, rn, s)
    [] k = "Seq" -> EvalSeq(cs, rn, s)
    [] k = "Oneof" -> EvalOneof(cs, rn, s)
    [] k = "Q" -> EvalQuant(cs, rn, s)
    [] k = "D" -> EvalDelim(cs, rn, s)
    [] k = "L" -> EvalLook(cs, rn, s)
    [] k = "REF" -> EvalRef(cs, rn, s)
    [] k = "X" -> EvalExt(cs, rn, s)

RetSeq(cs, rn, s) ==
  LET f == Top(s) r == s.res xs == Items(cs, f.c) IN
  IF r.o = "ok" THEN
    LET cut == IsCut(cs, xs[f.i])
        sc1 == IF cut THEN [f.sc EXCEPT !.cp = s.ncp] ELSE f.sc
        sc2 == Bind(sc1, Ident(cs, xs[f.i]), r.tree)
        acc == Append(f.acc, r.tree)
        s1 == [s EXCEPT !.ncp = IF cut THEN @ + 1 ELSE @]
    IN IF f.i = Len(xs) THEN RetPop(s1, Ok(r.pos, Nd(TagOf(cs, f.c), NoX, acc)))
       ELSE Eval(cs, s1, xs[f.i + 1], r.pos, sc2,
                 SetTop(s, [f EXCEPT !.i = @ + 1, !.sc = sc2, !.acc = acc, !.last = r.pos]))
  ELSE IF r.o = "err" THEN RetPop(s, Fail(f.last, f.sc.cp))
  ELSE RetPop(s, r)

RetOneof(cs, rn, s) ==
  LET f == Top(s) r == s.res xs == cs.T[f.c.t].xs
      far == IF r.pos > f.far THEN r.pos ELSE f.far
  IN IF r.o = "ok" THEN RetPop(s, Ok(r.pos, Nd(TagOf(cs, f.c), <<"c", f.i - 1>>, <<r.tree>>)))
     ELSE IF NotMine(r, f.my) THEN RetPop(s, [r EXCEPT !.pos = f.start])
     ELSE IF f.i = Len(xs) THEN RetPop(s, Fail(far, f.prev))
     ELSE Eval(cs, s, Sub(f.c, xs[f.i + 1]), f.start, f.sc, SetTop(s, [f EXCEPT !.i = @ + 1, !.far = far]))

RetQuant(cs, rn, s) ==
  LET f == Top(s) r == s.res
      mn == QMin(cs, f.c) mx == QMax(cs, f.c)
      acc == IF r.o = "ok" THEN Append(f.acc, r.tree) ELSE f.acc
      at == IF r.o = "ok" THEN r.pos ELSE f.last
      stuck == mx = 0 /\ r.pos = f.last /\ Len(acc) >= mn
      finish == IF Len(acc) >= mn THEN Ok(at, Nd(TagOf(cs, f.c), NoX, acc)) ELSE Fail(at, f.prev)
  IN IF r.o = "ok" /\ ~stuck /\ (mx = 0 \/ Len(acc) < mx)
     THEN Eval(cs, s, QBody(cs, f.c), at, f.sc, SetTop(s, [f EXCEPT !.acc = acc, !.last = at]))
     ELSE IF r.o # "ok" /\ NotMine(r, f.my) THEN RetPop(s, [r EXCEPT !.pos = f.last])
     ELSE RetPop(s, finish)

RetDelim(cs, rn, s) ==
  LET f == Top(s) r == s.res IN
  IF r.o # "ok" THEN RetPop(s, r)
  ELSE RetPop(s, Ok(r.pos, DelimTree(cs.T[f.c.t], TagOf(cs, f.c), r.tree)))

RetLook(cs, rn, s) ==
  LET f == Top(s) r == s.res IN
  IF r.o # "ok" THEN RetPop(s, [r EXCEPT !.pos = f.start])
  ELSE RetPop(s, Ok(f.start, Nd(TagOf(cs, f.c), NoX, <<r.tree>>)))

RetEsc(cs, rn, s) ==
  LET r == s.res IN
  IF r.o # "ok" THEN RetPop(s, r) ELSE EscClose(s, rn, r.pos, r.tree, Pop(s))

StepRet(cs, rn, s) ==
  IF s.k = <<>> THEN [s EXCEPT !.mode = "done"]
  ELSE LET f == Top(s).f IN
  CASE f = "seq" -> RetSeq(cs, rn, s)
    [] f = "one" -> RetOneof(cs, rn, s)
    [] f = "q" -> RetQuant(cs, rn, s)
    [] f = "d" -> RetDelim(cs, rn, s)
    [] f = "l" -> RetLook(cs, rn, s)
    [] f = "esc" -> RetEsc(cs, rn, s)

Step(cs, rn, s) == IF s.mode = "eval" THEN StepEval(cs, rn, s) ELSE StepRet(cs, rn, s)

\* what a caller observes
Outcome(rn, s) ==
  [o |-> IF s.res.o # "ok" THEN s.res.o ELSE IF s.res.pos = Len(rn.in) THEN "ok" ELSE "rest",
   p |-> s.res.pos, t |-> s.res.tree, log |-> s.log]
=============================================================================

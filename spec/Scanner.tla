------------------------------ MODULE Scanner -------------------------------
(* Scanners: intervals of one source.  Texts and names are sequences of       *)
(* bytes.  A scanner is <<>> (no source) or                                   *)
(*   [text, file, at, len, whole]                                             *)
(* whole is FALSE once the source has been stripped, after which only the     *)
(* text, the offset and the file name are meaningful.                         *)
EXTENDS Regex, FiniteSets

NL == 10
Nil == <<>>
IsNil(s) == s = <<>>

Whole(text, file) == [text |-> text, file |-> file, at |-> 0, len |-> Len(text), whole |-> TRUE]
At(text, n, m) == [text |-> text, file |-> <<>>, at |-> n, len |-> m, whole |-> TRUE]
End(s) == s.at + s.len

\* the text a scanner shows
Str(s) == IF IsNil(s) THEN <<>> ELSE IF s.whole THEN SubSeq(s.text, s.at + 1, End(s)) ELSE s.text

Least(xs) == CHOOSE x \in xs : \A y \in xs : x <= y
Most(xs) == CHOOSE x \in xs : \A y \in xs : x >= y

\* 1-based line, and column counted in bytes from the last line break
Line(text, p) == 1 + Cardinality({i \in 1..p : text[i] = NL})
Col(text, p) == LET b == {i \in 1..p : text[i] = NL} IN IF b = {} THEN p + 1 ELSE p + 1 - Most(b)

Slice(s, n, m) == [s EXCEPT !.at = @ + n, !.len = m - n]
Skip(s, n) == Slice(s, n, s.len)
Strip(s) == [s EXCEPT !.text = Str(s), !.whole = FALSE]
SameSource(s, t) == s.text = t.text /\ s.file = t.file
Contains(s, t) == SameSource(s, t) /\ s.at <= t.at /\ End(t) <= End(s)

\* the smallest interval around all of them; <<>> if their sources differ
Merge(ss) ==
  IF Len(ss) = 0 \/ \E i \in 2..Len(ss) : ~SameSource(ss[i], ss[1]) THEN <<>>
  ELSE LET l == Least({ss[i].at : i \in 1..Len(ss)})
           r == Most({End(ss[i]) : i \in 1..Len(ss)})
       IN <<[ss[1] EXCEPT !.at = l, !.len = r - l]>>

HasPrefix(s, x) == Len(x) <= s.len /\ \A i \in 1..Len(x) : s.text[s.at + i] = x[i]
\* what an expression matches at the start of s: <<>> or <<end, group or <<>> >>
MatchAt(s, rx) ==
  LET y == First([in |-> SubSeq(s.text, 1, End(s)), b |-> s.at, hole |-> rx], <<rx>>, <<s.at, <<>>, <<>>>>)
  IN IF y = <<>> THEN <<>> ELSE <<y[1], y[3]>>

\* a scanner shown in its source: where it is, what is before it, itself in
\* red, what is after it; with a limit only so many lines before the one it
\* starts in, and so many lines after it, of which what is left of the one it
\* ends in is the first
RECURSIVE Split(_, _), Lined(_), Digits(_)
Split(t, acc) == IF t = <<>> THEN <<acc>> ELSE IF Head(t) = NL THEN <<acc>> \o Split(Tail(t), <<>>) ELSE Split(Tail(t), Append(acc, Head(t)))
Lined(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o Lined(Tail(ls))
Digits(n) == (IF n > 9 THEN Digits(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
Context(s, limit) ==
  LET a == Split(SubSeq(s.text, 1, s.at), <<>>)
      b == Split(SubSeq(s.text, End(s) + 1, Len(s.text)), <<>>)
      above == IF limit # -1 /\ Len(a) > limit THEN SubSeq(a, Len(a) - limit, Len(a)) ELSE a
      below == IF limit # -1 /\ Len(b) > limit THEN SubSeq(b, 1, limit) ELSE b
  IN <<NL, 27, 91, 49, 59, 51, 55, 109>> \o s.file \o <<58>> \o Digits(Line(s.text, s.at)) \o <<58>> \o Digits(Col(s.text, s.at)) \o <<58, 27, 91, 48, 109, NL>>
     \o Lined(above) \o <<27, 91, 49, 59, 51, 49, 109>> \o Str(s) \o <<27, 91, 48, 109>> \o Lined(below)

----------------------------------------------------------------------------
(* Operations on numbered scanners.  Do gives the scanners afterwards and the *)
(* answer of the operation.                                                   *)

Do(rs, e) ==
  LET yes(x) == [rs |-> x, ans |-> <<1>>]
      a == rs[e.a]
  IN
  CASE e.op = "new" -> yes([rs EXCEPT ![e.r] = Whole(e.s, e.file)])
    [] e.op = "at" -> yes([rs EXCEPT ![e.r] = At(e.s, e.n, e.m)])
    [] e.op = "slice" -> yes([rs EXCEPT ![e.r] = Slice(a, e.n, e.m)])
    [] e.op = "skip" -> yes([rs EXCEPT ![e.r] = Skip(a, e.n)])
    [] e.op = "strip" -> yes([rs EXCEPT ![e.r] = Strip(a)])
    [] e.op = "ctx" -> [rs |-> rs, ans |-> Context(a, e.n)]
    [] e.op = "eat" -> yes([rs EXCEPT ![e.r] = Slice(a, 0, e.n), ![e.a] = Skip(a, e.n)])
    [] e.op = "eats" -> IF HasPrefix(a, e.s)
                        THEN yes([rs EXCEPT ![e.r] = Slice(a, 0, Len(e.s)), ![e.a] = Skip(a, Len(e.s))])
                        ELSE [rs |-> rs, ans |-> <<0>>]
    [] e.op = "eatre" -> LET m == MatchAt(a, e.rx) IN
                        IF m = <<>> THEN [rs |-> rs, ans |-> <<0, 0>>]
                        ELSE [rs |-> [rs EXCEPT ![e.r] = Slice(a, 0, m[1] - a.at), ![e.a] = Skip(a, m[1] - a.at),
                                                ![e.g] = IF e.n = 0 THEN @ ELSE IF m[2] = <<>> THEN Nil ELSE [a EXCEPT !.at = m[2][1], !.len = m[2][2] - m[2][1]]],
                              ans |-> <<1, e.n>>]
    [] e.op = "merge" -> LET m == Merge([i \in 1..Len(e.of) |-> rs[e.of[i]]]) IN
                        IF m = <<>> THEN [rs |-> rs, ans |-> <<0>>]
                        ELSE yes([rs EXCEPT ![e.r] = m[1]])

\* what can be seen of a scanner
Look(s) ==
  IF IsNil(s) THEN [nil |-> TRUE, s |-> <<>>, file |-> <<>>, at |-> 0, line |-> 0, col |-> 0]
  ELSE [nil |-> FALSE, s |-> Str(s), file |-> s.file, at |-> s.at,
        line |-> IF s.whole THEN Line(s.text, s.at) ELSE 0,
        col |-> IF s.whole THEN Col(s.text, s.at) ELSE 0]
Holds(s, t) == IF IsNil(s) \/ IsNil(t) THEN 2 ELSE IF ~s.whole \/ ~t.whole THEN 2 ELSE IF Contains(s, t) THEN 1 ELSE 0
Seen(rs) == [rs |-> [i \in 1..Len(rs) |-> Look(rs[i])],
             in |-> [i \in 1..Len(rs) |-> [j \in 1..Len(rs) |-> Holds(rs[i], rs[j])]]]

\* an operation that makes sense: intervals inside what they are taken from
Live(rs, i) == ~IsNil(rs[i]) /\ rs[i].whole
Allowed(rs, e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "at" -> e.n >= 0 /\ e.m >= 0 /\ e.n + e.m <= Len(e.s)
    [] e.op = "slice" -> Live(rs, e.a) /\ 0 <= e.n /\ e.n <= e.m /\ e.m <= rs[e.a].len
    [] e.op \in {"skip", "eat"} -> Live(rs, e.a) /\ 0 <= e.n /\ e.n <= rs[e.a].len /\ (e.op = "eat" => e.r # e.a)
    [] e.op = "strip" -> Live(rs, e.a)
    [] e.op = "ctx" -> Live(rs, e.a) /\ e.n >= -1
    [] e.op = "eats" -> Live(rs, e.a) /\ e.r # e.a
    [] e.op = "eatre" -> Live(rs, e.a) /\ e.r # e.a /\ e.g # e.a /\ e.g # e.r
    [] e.op = "merge" -> \A i \in 1..Len(e.of) : Live(rs, e.of[i])
=============================================================================

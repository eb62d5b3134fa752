------------------------------ MODULE Notation ------------------------------
(* What grammar text means.  The text is parsed with the notation's own       *)
(* grammar (data, see wbnf_core.json) by the machine of Engine.tla, and the   *)
(* concrete tree is translated into an abstract grammar:                      *)
(* a sequence of <<name, term>> sorted by name.  Names and regexes are code   *)
(* point sequences, literals are byte sequences, terms are nested tuples      *)
(*   <<"S",b>> <<"RE",c>> <<"R",n>> <<"Seq",xs>> <<"Oneof",xs>> <<"Stack",xs>> *)
(*   <<"D",t,sep,assoc,lead,trail>> <<"Q",t,min,max>> <<"N",name,t>>           *)
(*   <<"REF",n,default>> <<"X",n>> <<"L",t>> <<"C",t>> <<"G",t,grammar>>       *)
(*   <<"M",n,args>> (macro call, before expansion)                            *)
EXTENDS Peg, Json

Core == JsonDeserialize("wbnf_core.json")

Txt(in, leaf) == SubSeq(in, leaf[2] + 1, leaf[3])
Tag(t) == IF t[1] = "N" THEN t[2] ELSE ""
Kids(t) == t[4]
Kid(t, i) == t[4][i]
Choice(t) == t[3][2]
Odd(xs) == [i \in 1..((Len(xs) + 1) \div 2) |-> xs[2 * i - 1]]

----------------------------------------------------------------------------
(* Characters *)

BS == 92
IsSpace(c) == c \in {9, 10, 12, 13, 32}
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE Digits(_, _, _)
Digits(cs, base, acc) == IF cs = <<>> THEN acc ELSE Digits(Tail(cs), base, acc * base + HexVal(Head(cs)))

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Escaped(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c

\* bytes of the body of a quoted string with escapes, from index i
RECURSIVE Unescape(_, _, _)
Unescape(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] # BS THEN Unescape(cs, i + 1, acc \o Utf8(cs[i]))
  ELSE LET e == cs[i + 1]
           num(k, n, base) == Digits(SubSeq(cs, i + k, i + k + n - 1), base, 0)
       IN CASE e = 120 -> Unescape(cs, i + 4, Append(acc, num(2, 2, 16)))
            [] e = 117 -> Unescape(cs, i + 6, acc \o Utf8(num(2, 4, 16)))
            [] e = 85 -> Unescape(cs, i + 10, acc \o Utf8(num(2, 8, 16)))
            [] e >= 48 /\ e <= 55 -> Unescape(cs, i + 4, Append(acc, num(1, 3, 8)))
            [] OTHER -> Unescape(cs, i + 2, Append(acc, Escaped(e)))
RECURSIVE Backquoted(_, _, _)
Backquoted(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] = 96 THEN Backquoted(cs, i + 2, Append(acc, 96))
  ELSE Backquoted(cs, i + 1, acc \o Utf8(cs[i]))
StringBytes(cs) ==
  LET body == SubSeq(cs, 2, Len(cs) - 1) IN
  IF cs[1] = 96 THEN Backquoted(body, 1, <<>>) ELSE Unescape(body, 1, <<>>)

\* regex source: blanks are layout, \_ is a space, /{ } are delimiters
RECURSIVE ReBlank(_, _, _)
ReBlank(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] = BS /\ i < Len(cs)
       THEN ReBlank(cs, i + 2, IF cs[i + 1] = 95 THEN Append(acc, 32) ELSE acc \o <<BS, cs[i + 1]>>)
  ELSE ReBlank(cs, i + 1, Append(acc, cs[i]))
NotSpace(c) == ~IsSpace(c)
RegexCodes(cs) ==
  LET s == ReBlank(SelectSeq(cs, NotSpace), 1, <<>>) IN
  IF Len(s) > 1 /\ s[1] = 47 /\ s[2] = 123 THEN SubSeq(s, 3, Len(s) - 1) ELSE s

Decimal(cs) == Digits(cs, 10, 0)

----------------------------------------------------------------------------
(* Terms *)

RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE Insert(_, _), SortRules(_)
Insert(r, rs) == IF rs = <<>> THEN <<r>>
                 ELSE IF Head(rs)[1] = r[1] THEN rs
                 ELSE IF SeqLess(r[1], Head(rs)[1]) THEN <<r>> \o rs ELSE <<Head(rs)>> \o Insert(r, Tail(rs))
\* of two definitions of one name the later one counts
SortRules(rs) == IF rs = <<>> THEN <<>> ELSE
                 LET n == Len(rs) IN
                 LET RECURSIVE go(_, _)
                     go(i, acc) == IF i = 0 THEN acc ELSE go(i - 1, Insert(rs[i], acc))
                 IN go(n, <<>>)

AssocOf(cs) == IF cs = <<58>> THEN 0 ELSE IF cs = <<58, 62>> THEN 1 ELSE -1

RECURSIVE DTerm(_, _), DNamed(_, _), DAtom(_, _), DSuffix(_, _, _), DGram(_, _)
DTerm(in, t) ==
  LET kids == Kids(t) IN
  CASE Tag(t) = "term" ->
        LET items == Odd(kids) IN
        IF Len(items) = 1
        THEN LET x == DTerm(in, Kid(items[1], 1)) sc == Kids(Kid(items[1], 2)) IN
             IF sc = <<>> THEN x ELSE <<"G", x, DGram(in, Kid(sc[1], 2))>>
        ELSE <<"Stack", [i \in 1..Len(items) |-> DTerm(in, Kid(items[i], 1))]>>
    [] Tag(t) = "term@1" ->
        LET items == Odd(kids) IN
        IF Len(items) = 1 THEN DTerm(in, items[1]) ELSE <<"Oneof", [i \in 1..Len(items) |-> DTerm(in, items[i])]>>
    [] Tag(t) = "term@2" ->
        IF Len(kids) = 1 THEN DTerm(in, kids[1]) ELSE <<"Seq", [i \in 1..Len(kids) |-> DTerm(in, kids[i])]>>
    [] OTHER -> \* term@3: a named atom and its suffixes, the last one applied first
        LET qs == Kids(kids[2]) IN
        LET RECURSIVE go(_, _)
            go(i, x) == IF i = 0 THEN x ELSE go(i - 1, DSuffix(in, qs[i], x))
        IN go(Len(qs), DNamed(in, kids[1]))
DNamed(in, t) ==
  LET a == DAtom(in, Kid(t, 2)) nm == Kids(Kid(t, 1)) IN
  IF nm = <<>> THEN a ELSE <<"N", Txt(in, Kid(nm[1], 1)), a>>
DAtom(in, t) ==
  LET x == Kid(t, 1) IN
  CASE Choice(t) = 0 -> <<"R", Txt(in, x)>>
    [] Choice(t) = 1 -> <<"S", StringBytes(Txt(in, x))>>
    [] Choice(t) = 2 -> <<"RE", RegexCodes(Txt(in, x))>>
    [] Choice(t) = 3 -> LET as == SelectSeq(Odd(Kids(Kid(x, 4))), LAMBDA a : Kids(a) # <<>>) IN
                        <<"M", Txt(in, Kid(x, 2)), [i \in 1..Len(as) |-> DTerm(in, Kid(as[i], 1))]>>
    [] Choice(t) = 4 -> <<"X", Txt(in, Kid(x, 2))>>
    [] Choice(t) = 5 -> <<"REF", Txt(in, Kid(x, 2)),
                          IF Kids(Kid(x, 3)) = <<>> THEN <<>>
                          ELSE <<StringBytes(Txt(in, Kid(Kid(Kid(x, 3), 1), 2)))>>>>
    [] Choice(t) = 6 -> <<"L", DTerm(in, Kid(x, 2))>>
    [] Choice(t) = 7 -> DTerm(in, Kid(x, 2))
    [] OTHER -> <<"Seq", <<>>>>
DSuffix(in, q, x) ==
  LET y == Kid(q, 1) IN
  CASE Choice(q) = 0 -> LET op == Txt(in, y) IN
        CASE op = <<42>> -> <<"Q", x, 0, 0>> [] op = <<63>> -> <<"Q", x, 0, 1>> [] OTHER -> <<"Q", x, 1, 0>>
    [] Choice(q) = 1 -> LET num(k) == IF Kids(k) = <<>> THEN 0 ELSE Decimal(Txt(in, Kid(k, 1))) IN
                        <<"Q", x, num(Kid(y, 2)), num(Kid(y, 4))>>
    [] OTHER -> <<"D", x, DNamed(in, Kid(y, 3)), AssocOf(Txt(in, Kid(y, 1))),
                  Kids(Kid(y, 2)) # <<>>, Kids(Kid(y, 4)) # <<>>>>

Stmts(t, k) == SelectSeq(Kids(t), LAMBDA s : Choice(s) = k)
Prods(t) == LET ss == Stmts(t, 1) IN [i \in 1..Len(ss) |-> Kid(ss[i], 1)]
Pragmas(t, k) == LET ss == SelectSeq(Stmts(t, 2), LAMBDA s : Choice(Kid(s, 1)) = k)
                 IN [i \in 1..Len(ss) |-> Kid(Kid(ss[i], 1), 1)]
ProdTerm(in, p) ==
  LET ts == Kids(Kid(p, 3)) IN
  IF Len(ts) = 1 THEN DTerm(in, ts[1]) ELSE <<"Seq", [i \in 1..Len(ts) |-> DTerm(in, ts[i])]>>
DGram(in, t) ==
  LET ps == Prods(t) IN SortRules([i \in 1..Len(ps) |-> <<Txt(in, Kid(ps[i], 1)), ProdTerm(in, ps[i])>>])

\* macros: <<name, params, body>>
MacroArgs(in, m) == LET as == SelectSeq(Odd(Kids(Kid(m, 4))), LAMBDA a : Kids(a) # <<>>)
                    IN [i \in 1..Len(as) |-> Txt(in, Kid(as[i], 1))]
Macros(in, t) == LET ms == Pragmas(t, 1) IN
  [i \in 1..Len(ms) |-> <<Txt(in, Kid(ms[i], 2)), MacroArgs(in, ms[i]), DTerm(in, Kid(ms[i], 7))>>]

\* rules with macro calls still in place
Unexpanded(in, t) == DGram(in, t)
=============================================================================

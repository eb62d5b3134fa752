------------------------------ MODULE Imports -------------------------------
(* Compiling a grammar text with imports.  The loader is a machine with a     *)
(* stack of files being read: it parses a file, follows its import statements *)
(* in order, and adds the statements of each imported file after those of the *)
(* importing one.  A file is read when it is first reached; reached again, it *)
(* contributes the same statements again, and nothing while it is still being *)
(* read.  The first file that cannot be read or parsed ends the compilation.  *)
(*                                                                            *)
(* A record has the main text, files ([path, kind: "text" or "dir", text]),   *)
(* the resolver (res: "dir" resolves relative to the importing file, "base"   *)
(* to the base directory, "lib" takes the last part of the path from lib,     *)
(* "none" is no resolver, "cli" is the command line tool), the base directory, and what was observed: outcome *)
(* and grammar as in Text.tla, and the log of resolver calls.                 *)
(* Paths are sequences of names; a leading <<>> marks an absolute path.       *)
EXTENDS Grammars, Faults, IOUtils, CSV

Cases == ndJsonDeserialize(IOEnv.CASES)
OutFile == IOEnv.VERDICTS

VARIABLES ci, st, ph, k, done, log, out
vars == <<ci, st, ph, k, done, log, out>>
c == Cases[ci]
obs == Cases[ci].runs[1].obs

----------------------------------------------------------------------------
(* Paths *)
Dot == <<46>>
DotDot == <<46, 46>>
Slash == <<47>>
Last1(xs) == xs[Len(xs)]
Front1(xs) == SubSeq(xs, 1, Len(xs) - 1)
RECURSIVE Clean(_, _)
Clean(acc, xs) ==
  IF xs = <<>> THEN acc
  ELSE LET x == Head(xs) IN
       IF x = Dot THEN Clean(acc, Tail(xs))
       ELSE IF x = DotDot /\ acc # <<>> /\ Last1(acc) = <<>> THEN Clean(acc, Tail(xs))
       ELSE IF x = DotDot /\ acc # <<>> /\ Last1(acc) # DotDot THEN Clean(Front1(acc), Tail(xs))
       ELSE Clean(Append(acc, x), Tail(xs))
\* what an import statement asks for
RECURSIVE Names(_, _)
Names(in, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET x == SubSeq(in, Head(ts)[1] + 1, Head(ts)[2]) IN
       (IF x = Slash THEN <<>> ELSE <<x>>) \o Names(in, Tail(ts))
Asked(in, imp) ==
  LET ts == Tokens(Kid(imp, 2))
      abs == SubSeq(in, ts[1][1] + 1, ts[1][2]) = Slash
  IN Clean(IF abs THEN <<<<>>>> ELSE <<>>, Names(in, ts))
Relative(p) == IF p # <<>> /\ Head(p) = <<>> THEN Tail(p) ELSE p
Resolved(from, p) ==
  CASE c.res \in {"dir", "cli"} -> Clean(<<>>, (IF from = <<>> THEN c.base ELSE Front1(from)) \o Relative(p))
    [] c.res = "lib" -> Clean(<<>>, c.base \o <<<<108, 105, 98>>>> \o (IF p = <<>> THEN <<>> ELSE <<Last1(p)>>))
    [] OTHER -> Clean(<<>>, c.base \o Relative(p))

----------------------------------------------------------------------------
(* Statements of several texts: trees over the concatenated texts *)
RECURSIVE Shift(_, _), ShiftAll(_, _)
ShiftAll(xs, n) == [i \in 1..Len(xs) |-> Shift(xs[i], n)]
Shift(t, n) == CASE t[1] = "L" -> <<"L", t[2] + n, t[3] + n>>
                 [] t[1] = "N" -> <<"N", t[2], t[3], ShiftAll(t[4], n)>>
                 [] OTHER -> t
NoPart == [text |-> <<>>, stmts |-> <<>>]
Join(a, b) == [text |-> a.text \o b.text, stmts |-> a.stmts \o ShiftAll(b.stmts, Len(a.text))]
Whole(part) == <<"N", "grammar", <<"n", 0>>, part.stmts>>

----------------------------------------------------------------------------
(* The loader.  A frame has the path of a file ("" is the main text), its     *)
(* text, the import statements still to be followed and what it is so far.    *)
TextRun(text) == [rule |-> "grammar", in |-> text, ext |-> [zz |-> <<>>], esc |-> [on |-> FALSE]]
Init == /\ ci \in 1..Len(Cases)
        /\ ph = "parse" /\ st = Start(Core, TextRun(Cases[ci].text))
        /\ k = <<[path |-> <<>>, text |-> Cases[ci].text, imps |-> <<>>, part |-> NoPart]>>
        /\ done = <<>> /\ log = <<>> /\ out = ""
Here == k[Len(k)]

Parse == /\ ph = "parse" /\ st.mode # "done"
         /\ st' = Step(Core, TextRun(Here.text), st)
         /\ UNCHANGED <<ci, ph, k, done, log, out>>
Accepted == st.res.o = "ok" /\ st.res.pos = Len(Here.text)
Parsed == /\ ph = "parse" /\ st.mode = "done"
          /\ st' = <<>>
          /\ IF Accepted
             THEN /\ ph' = "follow" /\ UNCHANGED out
                  /\ LET t == st.res.tree is == Pragmas(t, 0) IN
                     k' = [k EXCEPT ![Len(k)].part = [text |-> Here.text, stmts |-> Kids(t)],
                                    ![Len(k)].imps = [i \in 1..Len(is) |-> Asked(Here.text, is[i])]]
             ELSE ph' = "decide" /\ out' = "syntax" /\ UNCHANGED k
          /\ UNCHANGED <<ci, done, log>>

FileAt(p) == {i \in 1..Len(c.files) : c.files[i].path = p}
DoneAt(p) == {i \in 1..Len(done) : done[i].path = p}
Open(p) == \E i \in 1..Len(k) : k[i].path = p
Follow ==
  /\ ph = "follow" /\ Here.imps # <<>>
  /\ LET asked == Head(Here.imps)
         p == Resolved(Here.path, asked)
         k1 == [k EXCEPT ![Len(k)].imps = Tail(@)]
     IN /\ log' = IF c.res \in {"none", "cli"} THEN log ELSE Append(log, <<Here.path, asked>>)
        /\ IF Open(p) /\ p # <<>> THEN k' = k1 /\ UNCHANGED <<ph, st, out>>
           ELSE IF DoneAt(p) # {}
           THEN /\ k' = [k1 EXCEPT ![Len(k)].part = Join(@, done[CHOOSE i \in DoneAt(p) : TRUE].part)]
                /\ UNCHANGED <<ph, st, out>>
           ELSE IF \E i \in FileAt(p) : c.files[i].kind = "text"
           THEN LET f == c.files[CHOOSE i \in FileAt(p) : TRUE] IN
                /\ k' = Append(k1, [path |-> p, text |-> f.text, imps |-> <<>>, part |-> NoPart])
                /\ ph' = "parse" /\ st' = Start(Core, TextRun(f.text)) /\ UNCHANGED out
           ELSE ph' = "decide" /\ out' = "unreadable" /\ k' = k1 /\ UNCHANGED st
  /\ UNCHANGED <<ci, done>>
Close1 ==
  /\ ph = "follow" /\ Here.imps = <<>>
  /\ IF Len(k) = 1 THEN ph' = "decide" /\ out' = "loaded" /\ UNCHANGED <<k, done>>
     ELSE /\ done' = Append(done, [path |-> Here.path, part |-> Here.part])
          /\ k' = [Front1(k) EXCEPT ![Len(k) - 1].part = Join(@, Here.part)]
          /\ UNCHANGED <<ph, out>>
  /\ UNCHANGED <<ci, st, log>>

Put(v, e) == CSVWrite("%1$s", <<ToJson([ci |-> ci, ri |-> 1, v |-> v, exp |-> e])>>, OutFile)
Bad(o) == Put("bad", [o |-> o, log |-> log])
Compare ==
  IF obs.log # log THEN Bad(out)
  ELSE IF out # "loaded" THEN IF obs.o = "err" THEN Put("ok", [o |-> out]) ELSE Bad(out)
  ELSE LET in == Here.part.text t == Whole(Here.part) fs == Faults(in, t, <<>>) IN
       IF fs # {} THEN IF obs.o = "err" THEN Put("ok", [o |-> IF \E f \in fs : f[1] = "duplicate" THEN "duplicate" ELSE "faults"]) ELSE Bad("faults")
       ELSE IF MaybeCyclic(in, t) THEN IF obs.o \in {"ok", "err"} THEN Put("ok", [o |-> "free"]) ELSE Bad("free")
       ELSE IF obs.o # "ok" THEN Bad("ok")
       ELSE LET e == SameWrap(Compiled(in, t)) IN
            IF SameWrap(obs.g) = e THEN Put("ok", [o |-> "ok"]) ELSE Put("bad", [o |-> "ok", g |-> e])
Decide == ph = "decide" /\ ph' = "end" /\ Compare /\ UNCHANGED <<ci, st, k, done, log, out>>
Next == Parse \/ Parsed \/ Follow \/ Close1 \/ Decide
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the loader guarantees *)
\* no file is read twice
Once == \A i, j \in 1..Len(k) : (k[i].path = k[j].path => i = j) /\ (k[i].path # <<>> => DoneAt(k[i].path) = {})
\* so there are never more files in hand than there are
Finite == Len(k) + Len(done) <= 1 + Len(c.files)
\* every statement of the main text and of each file that was read is in
Includes(a, b) == \E n \in 0..(Len(a.text) - Len(b.text)) : SubSeq(a.text, n + 1, n + Len(b.text)) = b.text
AllIn == out = "loaded" => \A i \in 1..Len(done) : Includes(Here.part, done[i].part)
=============================================================================

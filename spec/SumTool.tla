------------------------------ MODULE SumTool ------------------------------
(* The programs gostsum and gost12sum over a directory of files that changes.  Files are
   written, altered, removed, replaced by directories; digests are printed and kept as a
   list; lists are edited - lines dropped, swapped, spoilt, put between - and checked.
   Predicted: what is printed for which file in which order, the verdict on every usable
   line of a list, and whether the program may succeed.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NFiles, NSizes, MaxLines, ShortLists
VARIABLES file, ver, list, hist
vars == <<file, ver, list, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Pick(q, x) == q[1 + (x % Len(q))]
Names == 1..NFiles
Tools == {"94", "94t", "256", "512"}
Prog(t) == IF t \in {"94", "94t"} THEN "gostsum" ELSE "gost12sum"
Gone == 0
Dir == -1
Readable(f) == f > 0
\* a line: what it looks like, whose digest of which content by which algorithm it has.
\* "ok": as printed; "upper": capital digits; "crlf"; "digit": one digit changed; the rest cannot be used
Usable(l, p) == CASE l.form \in {"ok", "upper", "crlf", "digit"} -> IF p = "gostsum" THEN l.t \in {"94", "94t", "256"} ELSE TRUE
                  [] OTHER -> FALSE
Blank(l) == l.form = "blank"
\* the algorithm a line is checked with
By(l, t) == IF Prog(t) = "gostsum" THEN t ELSE IF l.t = "512" THEN "512" ELSE "256"
Verdict(l, t, now) == CASE ~Usable(l, Prog(t)) -> "unusable"
                        [] ~Readable(now[l.name]) -> "cannot"
                        [] l.form # "digit" /\ l.t = By(l, t) /\ now[l.name] = l.c -> "OK"
                        [] OTHER -> "FAILED"
Verdicts(ls, t, now) == [i \in 1..Len(ls) |-> Verdict(ls[i], t, now)]
\* 0 success, 1 no success, 2 either
Exit(ls, vs) == CASE (\E i \in 1..Len(ls) : vs[i] \in {"cannot", "FAILED"}) -> 1
                  [] (\A i \in 1..Len(ls) : vs[i] = "unusable") -> 1
                  [] (\E i \in 1..Len(ls) : vs[i] = "unusable" /\ ~Blank(ls[i])) -> 2
                  [] OTHER -> 0

Init == file = [n \in Names |-> Gone] /\ ver = 0 /\ list = <<>> /\ hist = <<>>
\* ------------------------------------------------------------ the directory
\* a version is a content; there is one empty content
Empty == 1000
Put(n, size) == LET v == IF size = 1 THEN Empty ELSE ver + 1 IN
                /\ file' = [file EXCEPT ![n] = v] /\ ver' = ver + 1 /\ UNCHANGED list
                /\ Log([op |-> "put", n |-> n, v |-> v, size |-> size])
\* a change that keeps the size
Alter(n, how) == /\ Readable(file[n]) /\ file' = [file EXCEPT ![n] = ver + 1] /\ ver' = ver + 1 /\ UNCHANGED list
                 /\ Log([op |-> "alter", n |-> n, v |-> ver + 1, of |-> file[n], how |-> how])
Remove(n) == file[n] # Gone /\ file' = [file EXCEPT ![n] = Gone] /\ UNCHANGED <<ver, list>> /\ Log([op |-> "remove", n |-> n])
MkDir(n) == file[n] = Gone /\ file' = [file EXCEPT ![n] = Dir] /\ UNCHANGED <<ver, list>> /\ Log([op |-> "mkdir", n |-> n])
Copy(n, m) == Readable(file[n]) /\ n # m /\ file' = [file EXCEPT ![m] = file[n]] /\ UNCHANGED <<ver, list>> /\ Log([op |-> "copy", n |-> n, m |-> m])
\* ------------------------------------------------------------ printing digests
Lines(ns, t) == LET good == SelectSeq(ns, LAMBDA n : Readable(file[n])) IN [i \in 1..Len(good) |-> [form |-> "ok", name |-> good[i], t |-> t, c |-> file[good[i]]]]
Sum(ns, t, how, keep) ==
  LET ls == Lines(ns, t) IN
  /\ list' = (IF keep /\ Len(list) + Len(ls) <= MaxLines THEN list \o ls ELSE list) /\ UNCHANGED <<file, ver>>
  /\ Log([op |-> "sum", ns |-> ns, t |-> t, how |-> how, lines |-> ls, exit |-> IF Len(ls) = Len(ns) THEN 0 ELSE 1])
\* content from a pipe, in pieces
SumIn(t, size, cut) == UNCHANGED <<file, ver, list>> /\ Log([op |-> "sumin", t |-> t, v |-> ver + 1, size |-> size, cut |-> cut])
\* nothing can be written
SumFull(n, t) == Readable(file[n]) /\ UNCHANGED <<file, ver, list>> /\ Log([op |-> "sumfull", n |-> n, t |-> t])
\* ------------------------------------------------------------ editing the list
Edit(i, form) == /\ i \in 1..Len(list) /\ list[i].form \notin {"blank", "junk"} /\ list' = [list EXCEPT ![i].form = form] /\ UNCHANGED <<file, ver>> /\ Log([op |-> "edit"])
Insert(i, form) == /\ i \in 1..(Len(list) + 1) /\ Len(list) < MaxLines /\ UNCHANGED <<file, ver>> /\ Log([op |-> "edit"])
                   /\ list' = SubSeq(list, 1, i - 1) \o <<[form |-> form, name |-> 1, t |-> "256", c |-> 0]>> \o SubSeq(list, i, Len(list))
Drop(i) == i \in 1..Len(list) /\ list' = SubSeq(list, 1, i - 1) \o SubSeq(list, i + 1, Len(list)) /\ UNCHANGED <<file, ver>> /\ Log([op |-> "edit"])
Swap(i, j) == i \in 1..Len(list) /\ j \in 1..Len(list) /\ list' = [list EXCEPT ![i] = list[j], ![j] = list[i]] /\ UNCHANGED <<file, ver>> /\ Log([op |-> "edit"])
Clear == list # <<>> /\ list' = <<>> /\ UNCHANGED <<file, ver>> /\ Log([op |-> "edit"])
\* ------------------------------------------------------------ checking
Check(t, how, v, eol) ==
  LET vs == Verdicts(list, t, file) IN
  /\ UNCHANGED <<file, ver, list>>
  /\ Log([op |-> "check", t |-> t, how |-> how, verbose |-> v, eol |-> eol, list |-> list, verdicts |-> vs, exit |-> Exit(list, vs)])
\* the list itself is no file that can be read
CheckBad(t, what, v) == UNCHANGED <<file, ver, list>> /\ Log([op |-> "checkbad", t |-> t, what |-> what, verbose |-> v])

W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
ToolSeq == <<"94", "256", "512", "94t", "256">>
Ways == <<"arg", "stdin", "joined">>
Spoil == <<"ok", "upper", "crlf", "digit", "short", "long", "nothex", "nospace", "noname">>
Subset(w) == LET all == [i \in 1..NFiles |-> i] IN SubSeq([i \in 1..NFiles |-> 1 + ((all[i] * w[1] + w[2]) % NFiles)], 1, 1 + (w[3] % NFiles))
Next ==
  \/ \E n \in {Rnd(Names)}, s \in {Rnd(1..NSizes)} : Put(n, s)
  \/ \E n \in {Rnd(Names)}, s \in {Rnd(1..NSizes)} : Put(n, s)
  \/ \E n \in {Rnd(Names)}, w \in W : Alter(n, Pick(<<"first", "last", "middle">>, w[1]))
  \/ \E n \in {Rnd(Names)} : Remove(n)
  \/ \E n \in {Rnd(Names)} : MkDir(n)
  \/ \E n \in {Rnd(Names)}, m \in {Rnd(Names)} : Copy(n, m)
  \/ \E w \in W : Sum(Subset(w), Pick(ToolSeq, w[4]), Pick(<<"args", "names">>, w[4] \div 5), TRUE)
  \/ \E w \in W : Sum(Subset(w), Pick(ToolSeq, w[4]), Pick(<<"args", "names">>, w[4] \div 5), TRUE)
  \/ \E w \in W : Sum(Subset(w), Pick(ToolSeq, w[4]), "args", FALSE)
  \/ \E w \in W, s \in {Rnd(1..NSizes)} : SumIn(Pick(ToolSeq, w[1]), s, Pick(<<0, 1000, 4096, 65537>>, w[2]))
  \/ \E n \in {Rnd(Names)}, w \in W : w[2] % 4 = 0 /\ SumFull(n, Pick(ToolSeq, w[1]))
  \/ \E i \in {Rnd(1..MaxLines)}, w \in W : Edit(i, Pick(Spoil, w[1]))
  \/ \E i \in {Rnd(1..MaxLines)}, w \in W : Insert(i, Pick(<<"blank", "junk">>, w[1]))
  \/ \E i \in {Rnd(1..MaxLines)} : Drop(i)
  \/ \E i \in {Rnd(1..MaxLines)}, j \in {Rnd(1..MaxLines)} : Swap(i, j)
  \/ \E w \in W : w[1] % 6 = 0 /\ Clear
  \/ \E w \in W : Check(Pick(ToolSeq, w[1]), Pick(Ways, w[2]), w[3] % 2, w[4] % 2)
  \/ \E w \in W : Check(Pick(ToolSeq, w[1]), Pick(Ways, w[2]), w[3] % 2, w[4] % 2)
  \/ \E w \in W : Check(Pick(ToolSeq, w[1]), Pick(Ways, w[2]), w[3] % 2, w[4] % 2)
  \/ \E w \in W : w[3] % 4 = 0 /\ CheckBad(Pick(ToolSeq, w[1]), Pick(<<"missing", "directory">>, w[2]), w[4] % 2)
  \/ Len(hist) < Depth /\ UNCHANGED vars
\* success means: everything listed was read and is as listed
Sound == \A t \in Tools : LET vs == Verdicts(list, t, file) IN
           Exit(list, vs) = 0 => /\ list # <<>>
                                 /\ \A i \in 1..Len(list) : Blank(list[i]) \/ (Readable(file[list[i].name]) /\ file[list[i].name] = list[i].c /\ list[i].form # "digit")
\* and the order does not matter
Orderless == \A t \in Tools : \A i \in 1..Len(list) :
               LET sw == [list EXCEPT ![1] = list[i], ![i] = list[1]] IN Exit(sw, Verdicts(sw, t, file)) = Exit(list, Verdicts(list, t, file))
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))

\* ------------------------------------------- every short list over the kinds of lines
\* file 1 as listed, 2 altered since, 3 missing, 4 a directory
Kinds(t) == <<[form |-> "ok", name |-> 1, t |-> t, c |-> 1], [form |-> "upper", name |-> 1, t |-> t, c |-> 1], [form |-> "ok", name |-> 2, t |-> t, c |-> 2],
              [form |-> "ok", name |-> 3, t |-> t, c |-> 4], [form |-> "ok", name |-> 4, t |-> t, c |-> 4],
              [form |-> "blank", name |-> 1, t |-> t, c |-> 0], [form |-> "junk", name |-> 1, t |-> t, c |-> 0], [form |-> "short", name |-> 1, t |-> t, c |-> 1],
              [form |-> "nospace", name |-> 1, t |-> t, c |-> 1], [form |-> "noname", name |-> 1, t |-> t, c |-> 1], [form |-> "nothex", name |-> 2, t |-> t, c |-> 1]>>
Disc == [n \in Names |-> CASE n = 1 -> 1 [] n = 2 -> 3 [] n = 4 -> Dir [] OTHER -> Gone]
ListInit == file = Disc /\ ver = 4 /\ list = <<>> /\ hist = <<>>
ListNext ==
  \/ /\ hist = <<>> /\ Len(list) < ShortLists /\ \E k \in 1..11 : list' = Append(list, [Kinds("256")[k] EXCEPT !.name = Kinds("256")[k].name]) /\ UNCHANGED <<file, ver, hist>>
  \/ /\ hist = <<>> /\ UNCHANGED <<file, ver, list>>
     /\ \E t \in {"94", "256"}, v \in 0..1 :
          LET ls == [i \in 1..Len(list) |-> [list[i] EXCEPT !.t = t]]
              vs == Verdicts(ls, t, file) IN
          hist' = <<[op |-> "put", n |-> 1, v |-> 1, size |-> 3], [op |-> "put", n |-> 2, v |-> 2, size |-> 4], [op |-> "alter", n |-> 2, v |-> 3, of |-> 2, how |-> "first"],
                    [op |-> "put", n |-> 3, v |-> 4, size |-> 4], [op |-> "remove", n |-> 3], [op |-> "mkdir", n |-> 4],
                    [op |-> "check", t |-> t, how |-> "arg", verbose |-> v, eol |-> 1, list |-> ls, verdicts |-> vs, exit |-> Exit(ls, vs)]>>
ListEmit == hist # <<>> => PrintT("@@" \o ToJson(hist))
=============================================================================

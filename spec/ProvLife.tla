------------------------------ MODULE ProvLife ------------------------------
(* The provider in several library contexts of one process: loaded, unloaded and
   loaded again in each, while objects fetched from them are at work.
     lib[l]   "none" (no context), "empty" (nothing loaded), "on"
     obj[s]   an object: begun in library context l, first half of its message done
   An object goes on working after its provider was unloaded; only when the object
   and the fetched algorithm are gone is the code of that instance released.  What
   is not loaded cannot be fetched; an unknown name never can.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Libs, NSlots, Algs, Names
VARIABLES lib, obj, hist
vars == <<lib, obj, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
None == [l |-> -1, alg |-> "", half |-> 0, id |-> 0]
Init == lib = [l \in Libs |-> IF l = 0 THEN "empty" ELSE "none"] /\ obj = [s \in 1..NSlots |-> None] /\ hist = <<>>
Rec(op, l) == [op |-> op, l |-> l, s |-> 0, alg |-> "", name |-> "", id |-> 0, half |-> 0, ok |-> 1]
Used(l) == \E s \in 1..NSlots : obj[s].l = l
On == {l \in Libs : lib[l] = "on"}
Full == {s \in 1..NSlots : obj[s].l # -1}
Make(l) == lib[l] = "none" /\ lib' = [lib EXCEPT ![l] = "empty"] /\ UNCHANGED obj /\ Log(Rec("lib", l))
Load(l) == lib[l] = "empty" /\ lib' = [lib EXCEPT ![l] = "on"] /\ UNCHANGED obj /\ Log(Rec("load", l))
Unload(l) == lib[l] = "on" /\ Rnd(1..2) = 1 /\ lib' = [lib EXCEPT ![l] = "empty"] /\ UNCHANGED obj /\ Log(Rec("unload", l))
\* a library context goes only when nothing of it is in use
Drop(l) == l # 0 /\ lib[l] = "empty" /\ ~Used(l) /\ lib' = [lib EXCEPT ![l] = "none"] /\ UNCHANGED obj /\ Log(Rec("drop", l))
Begin(l, s) ==
  /\ lib[l] # "none" /\ obj[s].l = -1 /\ (lib[l] = "on" \/ Rnd(1..4) = 1)
  /\ \E a \in {Rnd(Algs)} :
     LET ok == lib[l] = "on" IN
     /\ obj' = [obj EXCEPT ![s] = IF ok THEN [l |-> l, alg |-> a, half |-> 0, id |-> Len(hist) + 1] ELSE @]
     /\ UNCHANGED lib
     /\ Log([Rec("begin", l) EXCEPT !.s = s, !.alg = a, !.id = Len(hist) + 1, !.ok = B2N(ok)])
Step(s) ==
  /\ obj[s].l # -1
  /\ LET o == obj[s] IN
     /\ obj' = [obj EXCEPT ![s] = IF o.half = 0 THEN [o EXCEPT !.half = 1] ELSE None]
     /\ UNCHANGED lib
     /\ Log([Rec(IF o.half = 0 THEN "half" ELSE "end", o.l) EXCEPT !.s = s, !.alg = o.alg, !.id = o.id])
Free(s) == /\ obj[s].l # -1 /\ Rnd(1..4) = 1 /\ obj' = [obj EXCEPT ![s] = None] /\ UNCHANGED lib
           /\ Log([Rec("free", obj[s].l) EXCEPT !.s = s, !.alg = obj[s].alg])
\* names, aliases and object identifiers lead to the same algorithm, with its lengths
Look(l) ==
  /\ lib[l] # "none" /\ (lib[l] = "on" \/ Rnd(1..3) = 1)
  /\ \E n \in {Rnd(Names)} :
     /\ UNCHANGED <<lib, obj>>
     /\ Log([Rec("look", l) EXCEPT !.name = n, !.ok = B2N(lib[l] = "on" /\ n # "GOST none")])
\* a refused call leaves its reason in the error queue, whichever instances were there before
Err(l) == lib[l] = "on" /\ Rnd(1..2) = 1 /\ UNCHANGED <<lib, obj>> /\ Log(Rec("err", l))
L == Rnd(Libs)
Next == \/ \E l \in {L} : Make(l)
        \/ \E l \in {L} : Load(l)
        \/ \E l \in {L} : Load(l)
        \/ \E l \in {L} : Unload(l)
        \/ \E l \in {L} : Drop(l)
        \/ \E l \in {L}, s \in {Rnd(1..NSlots)} : Begin(l, s)
        \/ \E l \in {L}, s \in {Rnd(1..NSlots)} : Begin(l, s)
        \/ Full # {} /\ \E s \in {Rnd(Full)} : Step(s)
        \/ Full # {} /\ \E s \in {Rnd(Full)} : Step(s)
        \/ Full # {} /\ \E s \in {Rnd(Full)} : Free(s)
        \/ \E l \in {L} : Look(l)
        \/ \E l \in {L} : Err(l)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
Alive == \A s \in 1..NSlots : obj[s].l # -1 => lib[obj[s].l] # "none"
=============================================================================

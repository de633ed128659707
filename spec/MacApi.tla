------------------------------- MODULE MacApi -------------------------------
(* MACs as a user drives them, by two routes:
     md    a digest context keyed by a control (the way the engine's own code and
           its tests use it), size chosen by DigestFinalXOF or by control;
     pkey  a MAC key object made with control strings, then DigestSign.
   Every call's result is predicted, including calls in the wrong order.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Algs, Ops, MaxLen
VARIABLES slot, hist
vars == <<slot, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
\* "calm" histories make no refused calls: deep ones that get somewhere
Calm(ok) == "calm" \in Ops => ok
B(g) == IF g \in {"kmac", "kacpkm"} THEN 16 ELSE 8
Mx(g) == IF g \in {"kmac", "kacpkm"} THEN 16 ELSE 8
Def(g) == CASE g \in {"gmac", "gmac12"} -> 4 [] g = "mmac" -> 8 [] OTHER -> 16
None == [st |-> "none", route |-> "md", alg |-> "", key |-> 0, size |-> 0, par |-> "", n |-> 0, t |-> 0, len |-> 0, seg |-> <<>>]
Init == slot = [s \in 1..NSlots |-> None] /\ hist = <<>>
B2N(b) == IF b THEN 1 ELSE 0
Pars(g) == IF g \in {"gmac", "gmac12"} THEN {"", "", "A", "B", "C", "D", "Z"} ELSE {""}

\* md route --------------------------------------------------------------------
MdInit(s) ==
  /\ "md" \in Ops /\ (slot[s].st \in {"none", "done", "stale"} \/ Coin(IF "calm" \in Ops THEN 40 ELSE 8))
  /\ \E g \in {Rnd(Algs)}, keep \in {Rnd({0, 1})} :
     LET again == keep = 1 /\ slot[s].st = "done" /\ slot[s].route = "md"
         al == IF again THEN slot[s].alg ELSE g
     IN /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "init", !.alg = al]]
        /\ Log([op |-> "init", s |-> s, alg |-> al, again |-> B2N(again)])
\* a key of 32 bytes starts a computation; anything else is refused
SetKey(s) ==
  /\ slot[s].route = "md" /\ slot[s].st \in {"init", "run"}
  /\ slot[s].st = "init" \/ ("reinit" \in Ops /\ Coin(3))
  /\ \E k \in {Rnd(1..4)}, l \in {Rnd({32, 32, 32, 32, 31, 33, 16, 64, 1})} :
     /\ Calm(l = 32)
     /\ slot' = [slot EXCEPT ![s] = IF l = 32 THEN [None EXCEPT !.st = "run", !.alg = slot[s].alg, !.key = k, !.size = Def(slot[s].alg)]
                                    ELSE IF slot[s].st = "run" THEN [@ EXCEPT !.st = "stale"] ELSE @]
     /\ Log([op |-> "key", s |-> s, key |-> k, len |-> l, ok |-> B2N(l = 32)])
Size(s) ==
  /\ slot[s].st \in {"run", "init"}
  /\ "size" \in Ops /\ slot[s].len = 0
  /\ \E z \in {Rnd({0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, -1, 32})} :
     LET ok == z >= 1 /\ z <= Mx(slot[s].alg) IN
     /\ slot[s].st = "run" \/ ~ok \/ slot[s].route = "md"
     /\ slot' = [slot EXCEPT ![s].size = IF ok /\ slot[s].st = "run" THEN z ELSE @]
     /\ Log([op |-> "size", s |-> s, n |-> z, ok |-> IF slot[s].st = "init" THEN (IF ok THEN 2 ELSE 0) ELSE B2N(ok), route |-> slot[s].route])
\* section size N of the re-keyed MAC: a positive number of blocks, only once a key is there.  T, the
\* section size of the master key stream, is set after the first 48 bytes were drawn: T >= 48 only.
Mesh(s) ==
  /\ "mesh" \in Ops /\ slot[s].route = "md" /\ slot[s].st \in {"init", "run"} /\ slot[s].len = 0
  /\ \E n \in {Rnd({16, 32, 48, 64, 1024, 0, 8, 17, 4096, -16})}, t \in {Rnd({0, 0, 48, 64, 96, 1024, 20})} :
     LET acp == slot[s].alg = "kacpkm"
         okn == n > 0 /\ n % 16 = 0
         okt == t % 16 = 0
         ok == acp /\ slot[s].st = "run" /\ okn /\ okt
     IN /\ acp \/ Coin(6)
        /\ Calm(ok)
        /\ slot[s].st = "run" \/ Coin(4)
        /\ okn \/ Coin(3)
        \* a section size taken and then a T refused leaves a context nobody should use
        /\ slot' = [slot EXCEPT ![s].n = IF ok THEN n ELSE @, ![s].t = IF ok /\ t # 0 THEN t ELSE @,
                               ![s].st = IF slot[s].st = "run" /\ acp /\ okn /\ ~okt THEN "stale" ELSE @]
        /\ Log([op |-> "mesh", s |-> s, n |-> n, t |-> t, ok |-> B2N(ok)])
\* pkey route ------------------------------------------------------------------
PInit(s) ==
  /\ "pkey" \in Ops /\ (slot[s].st \in {"none", "done", "stale"} \/ Coin(8))
  /\ \E g \in {Rnd(Algs)}, k \in {Rnd(1..4)}, how \in {Rnd({"new", "hex", "hex", "str", "ctrl"})}, z \in {Rnd({0, 0, 1, 4, 5, 8, 9, 16, 17, -3})},
        kl \in {Rnd({32, 32, 32, 32, 32, 31, 33, 0})} :
     \E p \in {Rnd(Pars(g))} :
     LET okz == z = 0 \/ (z >= 1 /\ z <= Mx(g))
         ok == kl = 32
         zz == IF how = "new" \/ z = 0 \/ ~okz THEN Def(g) ELSE z
         pp == IF how = "new" THEN "" ELSE p
     IN /\ slot' = [slot EXCEPT ![s] = IF ok THEN [None EXCEPT !.st = "run", !.route = "pkey", !.alg = g, !.key = k, !.size = zz, !.par = pp] ELSE None]
        /\ Log([op |-> "pinit", s |-> s, alg |-> g, key |-> k, how |-> how, size |-> IF how = "new" THEN 0 ELSE z, okz |-> B2N(okz), klen |-> kl, par |-> pp, ok |-> B2N(ok)])
\* both ------------------------------------------------------------------------
Upd(s) ==
  /\ slot[s].st \in {"run", "init"}
  /\ slot[s].st = "run" \/ Coin(3)
  /\ Calm(slot[s].st = "run")
  /\ LET o == slot[s] b == B(o.alg)
         sec == IF o.alg \in {"gmac", "gmac12"} THEN 1024 ELSE IF o.n # 0 THEN o.n ELSE 4096 IN
     \E n \in {Rnd({0, 1, b - 1, b, b + 1, b - (o.len % b), 2 * b, Rnd(0..(3 * b)), Rnd(0..MaxLen), sec - (o.len % sec), sec - (o.len % sec) + 1, sec - (o.len % sec) - 1})} :
     /\ n <= MaxLen
     /\ n > 0 \/ Coin(2)
     /\ IF o.st = "run" THEN slot' = [slot EXCEPT ![s] = [o EXCEPT !.len = @ + n, !.seg = Append(@, <<Len(hist) + 1, n>>)]] ELSE UNCHANGED slot
     /\ Log([op |-> "upd", s |-> s, n |-> n, ok |-> B2N(o.st = "run")])
FinRec(s, z, how, ok) == [op |-> "fin", s |-> s, alg |-> slot[s].alg, key |-> slot[s].key, par |-> slot[s].par, n |-> slot[s].n, t |-> slot[s].t,
        seg |-> slot[s].seg, size |-> z, how |-> how, route |-> slot[s].route, ok |-> B2N(ok)]
MdFin(s) ==
  /\ slot[s].route = "md" /\ slot[s].st \in {"run", "init"}
  /\ slot[s].st = "run" \/ Coin(3)
  /\ \E how \in {Rnd({"fin", "xof"})}, z \in {Rnd({1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 0, 40})} :
     LET o == slot[s]
         okz == how = "fin" \/ (z >= 1 /\ z <= Mx(o.alg))
         ok == o.st = "run" /\ okz
     IN /\ okz \/ Coin(4)
        /\ Calm(ok)
        /\ slot' = [slot EXCEPT ![s].st = IF ok THEN "done" ELSE "stale"]
        /\ Log(FinRec(s, IF how = "fin" THEN o.size ELSE z, how, ok))
\* DigestSignFinal leaves the context as it was: more data may follow
PFin(s) ==
  /\ slot[s].route = "pkey" /\ slot[s].st = "run"
  /\ UNCHANGED slot
  /\ Log(FinRec(s, slot[s].size, "sign", TRUE))
Copy(s) ==
  /\ "copy" \in Ops /\ slot[s].st = "run"
  /\ \E t \in {Rnd(1..NSlots)} : s # t /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "copy", s |-> s, t |-> t])
Free(s) == /\ "copy" \in Ops /\ slot[s].st # "none" /\ Coin(3) /\ slot' = [slot EXCEPT ![s] = None] /\ Log([op |-> "free", s |-> s])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : MdInit(s)
        \/ \E s \in {S} : SetKey(s)
        \/ \E s \in {S} : slot[s].st = "init" /\ SetKey(s)
        \/ \E s \in {S} : Size(s)
        \/ \E s \in {S} : Mesh(s)
        \/ \E s \in {S} : PInit(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : slot[s].st = "run" /\ Upd(s)
        \/ \E s \in {S} : slot[s].st = "run" /\ Upd(s)
        \/ \E s \in {S} : slot[s].st = "run" /\ Upd(s)
        \/ \E s \in {S} : MdFin(s)
        \/ \E s \in {S} : PFin(s)
        \/ \E s \in {S} : Copy(s)
        \/ \E s \in {S} : Free(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
KeyFirst == \A s \in 1..NSlots : slot[s].st = "run" => slot[s].key # 0 /\ slot[s].size >= 1 /\ slot[s].size <= Mx(slot[s].alg)
=============================================================================

------------------------------- MODULE ProvMac -------------------------------
(* The provider's MACs as EVP_MAC drives them.  A context has an algorithm and a
   size from the beginning; a message begins with EVP_MAC_init, which is given a
   key (as an argument or as a parameter) or takes the last one again, and
   possibly parameters (size; section sizes of the re-keyed MAC).  What follows a
   refused key, or a final, is only another init or the end of the context.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Algs, MaxLen
VARIABLES slot, hist
vars == <<slot, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B(g) == IF g \in {"kmac", "kacpkm"} THEN 16 ELSE 8
Mx(g) == B(g)
Def(g) == CASE g \in {"gmac", "gmac12"} -> 4 [] g = "mmac" -> 8 [] OTHER -> 16
None == [st |-> "none", alg |-> "", key |-> 0, size |-> 0, n |-> 0, t |-> 0, len |-> 0, seg |-> <<>>, odd |-> FALSE]
Init == slot = [s \in 1..NSlots |-> None] /\ hist = <<>>
B2N(b) == IF b THEN 1 ELSE 0
Open == {s \in 1..NSlots : slot[s].st = "open"}

New(s) ==
  /\ slot[s].st = "none"
  /\ \E g \in {Rnd(Algs)} :
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "new", !.alg = g, !.size = Def(g)]]
     /\ Log([op |-> "new", s |-> s, alg |-> g])

\* key: 0 = none given.  via: "arg" or "param".  z, n, t: parameters in the same call, 0 = not given.
Start(s) ==
  /\ slot[s].st # "none"
  /\ slot[s].st # "open" \/ Rnd(1..6) = 1
  /\ \E w \in {<<Rnd({0, 0, 1, 2, 3, 4}), Rnd({"arg", "arg", "param"}), Rnd(0..Mx(slot[s].alg)), Rnd({16, 32, 48, 64, 1024, 4096}), Rnd({0, 0, 48, 64, 96, 1024}), Rnd(1..6)>>} :
     LET o == slot[s]
         k == w[1]
         again == k = 0 /\ o.key # 0
         z == IF w[6] = 1 THEN w[3] ELSE 0
         \* section sizes of the last message may or may not stay when the key does: they are given again
         ms == o.alg = "kacpkm" /\ (k # 0 \/ again) /\ (w[6] \in {2, 3} \/ (again /\ o.odd))
         n == IF ms THEN w[4] ELSE 0
         t == IF ms THEN (IF again /\ o.odd /\ w[5] = 0 THEN 4096 ELSE w[5]) ELSE 0
     IN /\ o.st = "broken" => k # 0
        /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.st = IF k # 0 \/ again THEN "open" ELSE "new", !.key = IF k # 0 THEN k ELSE @,
                       !.size = IF z # 0 THEN z ELSE @, !.n = n, !.t = t, !.len = 0, !.seg = <<>>,
                       !.odd = IF k # 0 \/ again THEN ms ELSE @]]
        /\ Log([op |-> "init", s |-> s, alg |-> o.alg, key |-> k, via |-> w[2], klen |-> 32, size |-> z, n |-> n, t |-> t, ok |-> 1])

\* a key of another length is refused, and so is the message
BadKey(s) ==
  /\ slot[s].st \in {"new", "done", "broken"} /\ Rnd(1..6) = 1
  /\ \E w \in {<<Rnd(1..4), Rnd({"arg", "param"}), Rnd({0, 1, 16, 31, 33, 64})>>} :
     /\ slot' = [slot EXCEPT ![s].st = "broken", ![s].key = 0]
     /\ Log([op |-> "init", s |-> s, alg |-> slot[s].alg, key |-> w[1], via |-> w[2], klen |-> w[3], size |-> 0, n |-> 0, t |-> 0, ok |-> 0])

Size(s) ==
  /\ slot[s].st # "none" /\ Rnd(1..3) = 1
  /\ \E z \in {Rnd(1..Mx(slot[s].alg))} :
     /\ slot' = [slot EXCEPT ![s].size = z]
     /\ Log([op |-> "size", s |-> s, alg |-> slot[s].alg, size |-> z])
\* a size no MAC has: refused at once, or no MAC is given; the size is then set right again
BadSize(s) ==
  /\ slot[s].st = "open" /\ Rnd(1..6) = 1
  /\ \E z \in {Rnd({0, Mx(slot[s].alg) + 1, 17, 40, 64})} :
     /\ slot' = [slot EXCEPT ![s].st = "broken", ![s].key = 0]
     /\ Log([op |-> "badsize", s |-> s, alg |-> slot[s].alg, z |-> z, size |-> slot[s].size])
Ask(s) ==
  /\ slot[s].st # "none" /\ Rnd(1..5) = 1 /\ UNCHANGED slot
  /\ Log([op |-> "ask", s |-> s, alg |-> slot[s].alg, size |-> slot[s].size])
Mesh(s) ==
  /\ slot[s].st = "open" /\ slot[s].len = 0 /\ (slot[s].alg = "kacpkm" \/ Rnd(1..8) = 1)
  /\ \E w \in {<<Rnd({16, 32, 48, 64, 1024, 0, 8, 17, 4096}), Rnd({0, 0, 48, 64, 96, 1024})>>} :
     LET ok == slot[s].alg = "kacpkm" /\ w[1] > 0 /\ w[1] % 16 = 0 IN
     /\ slot' = [slot EXCEPT ![s].n = IF ok THEN w[1] ELSE @, ![s].t = IF ok /\ w[2] # 0 THEN w[2] ELSE @, ![s].odd = @ \/ ok]
     /\ Log([op |-> "mesh", s |-> s, alg |-> slot[s].alg, n |-> w[1], t |-> w[2], ok |-> B2N(ok)])
\* data without a key is refused
Upd(s) ==
  /\ slot[s].st \in {"open", "new"} /\ (slot[s].st = "open" \/ Rnd(1..4) = 1)
  /\ LET o == slot[s] b == B(o.alg)
         sec == IF o.alg \in {"gmac", "gmac12"} THEN 1024 ELSE IF o.n # 0 THEN o.n ELSE 4096 IN
     \E n \in {Rnd({0, 1, b - 1, b, b + 1, b - (o.len % b), 2 * b, Rnd(0..(3 * b)), Rnd(0..MaxLen), sec - (o.len % sec), sec - (o.len % sec) + 1, sec - (o.len % sec) - 1})} :
     /\ n <= MaxLen /\ (o.st = "open" \/ n > 0)
     /\ slot' = [slot EXCEPT ![s] = IF o.st = "open" THEN [o EXCEPT !.len = @ + n, !.seg = Append(@, <<Len(hist) + 1, n>>)] ELSE o]
     /\ Log([op |-> "upd", s |-> s, alg |-> o.alg, n |-> n, ok |-> B2N(o.st = "open")])
\* room: how many bytes too many (or, negative, too few) the buffer has
Fin(s) ==
  /\ slot[s].st \in {"open", "new"} /\ (slot[s].st = "open" \/ Rnd(1..4) = 1)
  /\ \E w \in {<<Rnd({"fin", "xof", "fin"}), Rnd({0, 0, 0, 5, 40, -1})>>} :
     LET o == slot[s]
         room == IF w[1] = "xof" THEN 0 ELSE w[2]
         ok == o.st = "open" /\ room >= 0
     IN /\ slot' = [slot EXCEPT ![s].st = IF ok THEN "done" ELSE @]
        /\ Log([op |-> "fin", s |-> s, alg |-> o.alg, key |-> o.key, par |-> "", n |-> o.n, t |-> o.t, seg |-> o.seg, size |-> o.size, how |-> w[1], room |-> room, ok |-> B2N(ok)])
Dup(s) ==
  /\ slot[s].st \in {"new", "open", "done"} /\ (slot[s].st = "open" \/ Rnd(1..5) = 1)
  /\ \E t \in {Rnd(1..NSlots)} : s # t /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "dup", s |-> s, alg |-> slot[s].alg, t |-> t])
Free(s) == slot[s].st # "none" /\ Rnd(1..5) = 1 /\ slot' = [slot EXCEPT ![s] = None] /\ Log([op |-> "free", s |-> s, alg |-> slot[s].alg])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : New(s)
        \/ \E s \in {S} : Start(s)
        \/ \E s \in {S} : Start(s)
        \/ \E s \in {S} : BadKey(s)
        \/ \E s \in {S} : Size(s)
        \/ \E s \in {S} : BadSize(s)
        \/ \E s \in {S} : Ask(s)
        \/ \E s \in {S} : Mesh(s)
        \/ \E s \in {S} : Upd(s)
        \/ Open # {} /\ \E s \in {Rnd(Open)} : Upd(s)
        \/ Open # {} /\ \E s \in {Rnd(Open)} : Upd(s)
        \/ \E s \in {S} : Fin(s)
        \/ Open # {} /\ \E s \in {Rnd(Open)} : Fin(s)
        \/ \E s \in {S} : Dup(s)
        \/ \E s \in {S} : Free(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
Sane == \A s \in 1..NSlots : LET o == slot[s] IN
          /\ o.st = "open" => o.key # 0
          /\ o.st # "none" => o.size >= 1 /\ o.size <= Mx(o.alg)
          /\ o.n % 16 = 0 /\ (o.n # 0 => o.alg = "kacpkm")
=============================================================================

------------------------------ MODULE AgreeApi ------------------------------
(* EVP_PKEY_derive with GOST keys: contexts holding a key, a peer, a UKM and a digest
   selection that the caller may set in any order, repeatedly, before and after
   derivations, and copy.  The result of every call is predicted: refused, or the
   secret as a term (function, key, peer, UKM) that the replay evaluates with an
   independent implementation of the curves, the hashes and KDF_TREE.
   A key is <<alg, curve, class>>: a random number, 1, q-1, a number with leading
   zeros, and - public only - the points of order two and a sum of one with an
   honest point.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, G01, G01dh, G256, G512, Cof, Ops
VARIABLES slot, fam, hist
vars == <<slot, fam, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Fams == ({"g01"} \X G01) \cup ({"g01dh"} \X G01dh) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
B2N(b) == IF b THEN 1 ELSE 0
NoKey == <<"", "", "">>
Is512(k) == k[1] = "g512"
HasPriv(k) == k[3] \in {"r1", "r2", "one", "minus", "lead"}
Low(k) == k[3] = "low"
None == [st |-> 0, key |-> NoKey, priv |-> 0, peer |-> NoKey, ukm |-> <<0, "none", 0>>, vko |-> 0]
\* every history works with one family of keys and, for misuse, a second one
Init == slot = [s \in 1..NSlots |-> None] /\ fam \in (Fams \X Fams) /\ hist = <<>>
Classes(f) == IF f[2] \in Cof THEN {"r1", "r1", "r2", "one", "minus", "lead", "low", "mix"} ELSE {"r1", "r2", "one", "minus", "lead"}
Key(f, c) == <<f[1], f[2], c>>
Open(s) ==
  /\ \E c \in {Rnd({"r1", "r1", "r2", "one", "minus", "lead"})}, pub \in {Coin(8)} :
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = 1, !.key = Key(fam[1], c), !.priv = B2N(~pub)]]
     /\ Log([op |-> "open", s |-> s, key |-> Key(fam[1], c), priv |-> B2N(~pub)])
SetUkm(s) ==
  /\ \E n \in {Rnd({0, 1, 8, 8, 8, 16, 24, 31, 32, 32, 32, 33})}, c \in {Rnd({"rand", "rand", "rand", "zero", "one", "z16", "q", "ff"})}, how \in {Rnd({"ctrl", "str"})} :
     /\ n # 0 \/ how = "ctrl"
     /\ slot' = IF n <= 32 THEN [slot EXCEPT ![s].ukm = <<n, c, Len(hist) + 1>>] ELSE slot
     /\ Log([op |-> "ukm", s |-> s, n |-> n, cls |-> c, how |-> how, ok |-> B2N(n <= 32)])
SetVko(s) ==
  /\ \E v \in {Rnd({0, 0, 256, 512, 94, 1})}, how \in {Rnd({"ctrl", "str"})} :
     /\ slot' = IF v \in {0, 256, 512} THEN [slot EXCEPT ![s].vko = v] ELSE slot
     /\ Log([op |-> "vko", s |-> s, v |-> v, how |-> how, ok |-> B2N(v \in {0, 256, 512})])
SetPeer(s) ==
  /\ \E other \in {Coin(5)}, pub \in {Coin(2)} : \E f \in {IF other THEN fam[2] ELSE fam[1]} : \E c \in {Rnd(Classes(f))} :
     LET k == Key(f, c)
         ok == f[1] = slot[s].key[1] /\ f[2] = slot[s].key[2]
     IN /\ slot' = IF ok THEN [slot EXCEPT ![s].peer = k] ELSE slot
        /\ Log([op |-> "peer", s |-> s, key |-> k, priv |-> B2N(HasPriv(k) /\ ~pub), ok |-> B2N(ok)])
\* the scalar is a multiple of the order: nothing can come out
ZeroUkm(o) == o.ukm[2] = "zero" \/ (o.ukm[2] = "z16" /\ o.ukm[1] <= 16) \/ (o.ukm[2] = "q" /\ o.ukm[1] = 32 /\ ~Is512(o.key))
Keg(o) == o.vko = 0 /\ o.ukm[1] = 32
Able(o) == o.priv = 1 /\ o.peer # NoKey /\ ~Low(o.peer)
Result(o) ==
  IF o.ukm[1] = 0 THEN "refused"
  ELSE IF o.vko # 0 THEN (IF Able(o) /\ ~ZeroUkm(o) THEN "vko" ELSE "refused")
  ELSE IF o.ukm[1] = 8 THEN (IF Able(o) /\ ~ZeroUkm(o) THEN "vko" ELSE "refused")
  ELSE IF o.ukm[1] = 32 THEN (IF Able(o) /\ o.key[1] \in {"g256", "g512"} THEN "keg" ELSE "refused")
  ELSE "refused"
Bits(o) == IF o.vko # 0 THEN o.vko ELSE IF o.ukm[1] = 32 THEN 512 ELSE IF o.key[1] \in {"g01", "g01dh"} THEN 94 ELSE 256
Len8(o) == IF o.vko = 512 \/ Keg(o) THEN 64 ELSE 32
Askable(o) == o.ukm[1] # 0 /\ (o.vko # 0 \/ o.ukm[1] \in {8, 32})
\* a peer made for this context, so that the shared point has the wanted shape: a leading zero in x, in y, in both
Fit(s) ==
  /\ slot[s].priv = 1
  /\ \E shape \in {Rnd(IF fam[1][2] \in Cof THEN {"x", "y"} ELSE {"x", "y", "both", "both", "tiny"})} :
     LET k == Key(fam[1], "f" \o ToString(Len(hist) + 1)) IN
     /\ Askable(slot[s]) /\ ~ZeroUkm(slot[s])
     /\ slot' = [slot EXCEPT ![s].peer = k]
     /\ Log([op |-> "fit", s |-> s, key |-> slot[s].key, peer |-> k, ukm |-> slot[s].ukm, keg |-> B2N(Keg(slot[s])), shape |-> shape, ok |-> 1])
Der(s) ==
  /\ \E room \in {Rnd({"exact", "exact", "more", "less"})} :
     LET o == slot[s]
         r == IF room = "less" THEN "refused" ELSE Result(o)
     IN /\ UNCHANGED slot
        /\ Log([op |-> "derive", s |-> s, room |-> room, r |-> r, fn |-> Result(o), key |-> o.key, peer |-> o.peer, ukm |-> o.ukm,
                bits |-> Bits(o), n |-> Len8(o)])
Ask(s) == UNCHANGED slot /\ Log([op |-> "ask", s |-> s, ok |-> B2N(Askable(slot[s])), n |-> Len8(slot[s])])
Dup(s) ==
  /\ "dup" \in Ops
  /\ \E t \in {Rnd(1..NSlots)} : t # s /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "dup", s |-> s, t |-> t])
S == Rnd(1..NSlots)
On(s) == slot[s].st = 1
Next == /\ UNCHANGED fam
        /\ \/ \E s \in {S} : (~On(s) \/ Coin(12)) /\ Open(s)
           \/ \E s \in {S} : On(s) /\ SetUkm(s)
           \/ \E s \in {S} : On(s) /\ slot[s].ukm[1] \notin {8, 32} /\ SetUkm(s)
           \/ \E s \in {S} : On(s) /\ SetVko(s)
           \/ \E s \in {S} : On(s) /\ SetPeer(s)
           \/ \E s \in {S} : On(s) /\ slot[s].peer = NoKey /\ SetPeer(s)
           \/ \E s \in {S} : On(s) /\ Coin(2) /\ Fit(s)
           \/ \E s \in {S} : On(s) /\ Der(s)
           \/ \E s \in {S} : On(s) /\ slot[s].peer # NoKey /\ slot[s].ukm[1] # 0 /\ Der(s)
           \/ \E s \in {S} : On(s) /\ slot[s].peer # NoKey /\ slot[s].ukm[1] \in {8, 32} /\ Der(s)
           \/ \E s \in {S} : On(s) /\ Coin(3) /\ Ask(s)
           \/ \E s \in {S} : On(s) /\ Dup(s)
           \/ (Len(hist) < Depth /\ UNCHANGED <<slot, hist>>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* a secret only ever comes from a private key, a peer of the same kind and curve, and a UKM
Sound == \A s \in 1..NSlots : Result(slot[s]) # "refused" =>
           slot[s].priv = 1 /\ slot[s].peer[1] = slot[s].key[1] /\ slot[s].peer[2] = slot[s].key[2] /\ slot[s].ukm[1] # 0
=============================================================================

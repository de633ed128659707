------------------------------- MODULE TlsApi -------------------------------
(* TLS 1.2 record protection: a CTR cipher context (or a MAC) gets a master key and
   an IV once and is then told each record's sequence number; from there on it must
   work with the TLSTREE key of that number and IV + number, whatever happened
   before.  Sequence numbers are 8 bytes; carries, masks and the decrement the
   caller may ask for are computed here.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Algs, Ops, MaxLen
VARIABLES slot, hist
vars == <<slot, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Magma(g) == g \in {"mctr", "mctra", "mmac"}
Mac(g) == g \in {"mmac", "kmac"}
Acpkm(g) == g \in {"mctra", "kctra"}
Can(g) == g \in {"mctr", "mctra", "kctr", "kctra", "mmac", "kmac"}
B(g) == IF Magma(g) \/ g \in {"g28cnt", "g28cfb"} THEN 8 ELSE 16
IvLen(g) == CASE g \in {"mctr", "mctra"} -> 4 [] g \in {"kctr", "kctra"} -> 8 [] g \in {"g28cnt", "g28cfb"} -> 8 [] OTHER -> 16
Ignore(g) == IF Magma(g) THEN <<38, 25, 12>> ELSE <<32, 19, 6>>
Mask(q, g) == [j \in 1..8 |-> LET low == 8 * (8 - j) IN IF g >= low + 8 THEN 0 ELSE IF g <= low THEN q[j] ELSE (q[j] \div 2 ^ (g - low)) * 2 ^ (g - low)]
Tree(g, q) == [l \in 1..3 |-> Mask(q, Ignore(g)[l])]
RECURSIVE Dec(_, _), Inc(_, _)
Dec(q, j) == IF j = 0 THEN q ELSE IF q[j] > 0 THEN [q EXCEPT ![j] = @ - 1] ELSE Dec([q EXCEPT ![j] = 255], j - 1)
Inc(q, j) == IF j = 0 THEN q ELSE IF q[j] < 255 THEN [q EXCEPT ![j] = @ + 1] ELSE Inc([q EXCEPT ![j] = 0], j - 1)
\* sum of equally long big-endian numbers modulo 256^length
RECURSIVE Add(_, _, _)
Add(a, b, c) == IF a = <<>> THEN <<>> ELSE
  LET n == Len(a) t == a[n] + b[n] + c IN Append(Add(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1), t \div 256), t % 256)
RecIv(g, iv, q) == Add(iv, SubSeq(q, 9 - IvLen(g), 8), 0)
Zero8 == [j \in 1..8 |-> 0]
DefSec(g) == CASE g \in {"mctra", "g28cnt", "g28cfb"} -> 1024 [] g = "kctra" -> 4096 [] OTHER -> 0
None == [st |-> "none", alg |-> "", key |-> 0, iv |-> <<>>, tree |-> <<>>, riv |-> <<>>, sec |-> 0, pos |-> 0, seg |-> <<>>, seq |-> Zero8, how |-> ""]
Init == slot = [s \in 1..NSlots |-> None] /\ hist = <<>>
AnyByte == Rnd({0, 255, 254, 1, Rnd(0..255), Rnd(0..255)})
Any8 == <<AnyByte, AnyByte, AnyByte, AnyByte, AnyByte, AnyByte, AnyByte, AnyByte>>
SOpen(s) ==
  /\ slot[s].st = "none" \/ Coin(6)
  /\ \E g \in {Rnd(Algs)}, k \in {Rnd(1..3)}, a \in {Any8}, a2 \in {Any8}, z \in {Rnd({0, 0, 1})}, h \in {Rnd({"md", "pkey"})} : \E n \in {IF Acpkm(g) /\ Coin(2) THEN Rnd({16, 32, 48, 64, 1024}) ELSE 0} :
     LET iv == [j \in 1..IvLen(g) |-> IF z = 1 THEN 255 ELSE (a \o a2)[j]] IN
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "run", !.alg = g, !.key = k, !.iv = iv, !.riv = iv, !.how = h, !.sec = IF n # 0 THEN n ELSE DefSec(g)]]
     /\ Log([op |-> "open", s |-> s, alg |-> g, key |-> k, iv |-> iv, how |-> h, mesh |-> n])
\* the same keys again without giving them, or a new key/IV: no trace of the records before
Again(s) ==
  /\ "reinit" \in Ops /\ slot[s].st = "run" /\ ~Mac(slot[s].alg) /\ slot[s].sec = DefSec(slot[s].alg)
  /\ \E k \in {Rnd(0..3)} :
     /\ slot' = [slot EXCEPT ![s].key = IF k = 0 THEN @ ELSE k, ![s].tree = <<>>, ![s].riv = slot[s].iv, ![s].pos = 0]
     /\ Log([op |-> "again", s |-> s, key |-> k])
SeqNos(q, k, r) ==
      {q, Inc(q, 8), Dec(q, 8), r, [j \in 1..8 |-> 255], [j \in 1..8 |-> IF 8 - j = k \div 8 THEN 2 ^ (k % 8) ELSE 0],
       [j \in 1..8 |-> IF 8 - j < k \div 8 THEN 255 ELSE IF 8 - j = k \div 8 THEN 2 ^ (k % 8) - 1 ELSE 0],
       [q EXCEPT ![8 - (k \div 8)] = (@ + 2 ^ (k % 8)) % 256]}
Tls(s) ==
  /\ slot[s].st \in {"run", "fin"}
  /\ \E k \in {Rnd(0..63)}, r \in {Any8}, up \in {Coin(3)} : \E q \in {IF up THEN Inc(slot[s].seq, 8) ELSE Rnd(SeqNos(slot[s].seq, k, r))}, arg \in {IF Mac(slot[s].alg) THEN 0 ELSE Rnd({0, 0, 0, 1, 1, 1, 2, -1})} :
     LET g == slot[s].alg
         ok == Can(g) /\ arg \in {0, 1}
         e == IF arg = 1 THEN Dec(q, 8) ELSE q
     IN /\ Can(g) \/ Coin(2)
        /\ slot' = IF ok THEN [slot EXCEPT ![s].st = "run", ![s].tree = Tree(g, e), ![s].riv = IF Mac(g) THEN <<>> ELSE RecIv(g, slot[s].iv, e),
                                          ![s].pos = 0, ![s].seg = <<>>, ![s].seq = q]
                   ELSE slot
        /\ Log([op |-> "tls", s |-> s, seq |-> q, arg |-> arg, ok |-> B2N(ok)])
Sizes(o) == {0, 1, B(o.alg) - 1, B(o.alg), B(o.alg) + 1, Rnd(0..MaxLen), Rnd(0..(6 * B(o.alg)))} \cup (IF o.sec # 0 THEN {o.sec - (o.pos % o.sec), o.sec - (o.pos % o.sec) + 1} ELSE {})
Upd(s) ==
  /\ slot[s].st = "run"
  /\ \E n \in {Rnd(Sizes(slot[s]))}, ip \in {Rnd({0, 1})} :
     LET o == slot[s] IN
     /\ n <= MaxLen
     /\ slot' = [slot EXCEPT ![s].pos = @ + n, ![s].seg = IF Mac(o.alg) THEN Append(@, <<Len(hist) + 1, n>>) ELSE @]
     /\ Log([op |-> "upd", s |-> s, n |-> n, ip |-> ip, alg |-> o.alg, key |-> o.key, tree |-> o.tree, riv |-> o.riv, sec |-> o.sec, pos |-> o.pos])
Fin(s) ==
  /\ slot[s].st = "run" /\ Mac(slot[s].alg)
  /\ slot' = [slot EXCEPT ![s] = IF @.how = "md" THEN None ELSE [@ EXCEPT !.st = "fin"]]
  /\ Log([op |-> "fin", s |-> s, alg |-> slot[s].alg, key |-> slot[s].key, tree |-> slot[s].tree, seg |-> slot[s].seg])
Copy(s) ==
  /\ "copy" \in Ops /\ slot[s].st = "run" /\ Coin(2)
  /\ \E t \in {Rnd(1..NSlots)} : s # t /\ (slot[t].st = "none" \/ Mac(slot[t].alg) = Mac(slot[s].alg)) /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "copy", s |-> s, t |-> t, mac |-> B2N(Mac(slot[s].alg))])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : SOpen(s)
        \/ \E s \in {S} : Again(s)
        \/ \E s \in {S} : Tls(s)
        \/ \E s \in {S} : Tls(s)
        \/ \E s \in {S} : slot[s].st = "fin" /\ Tls(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : Fin(s)
        \/ \E s \in {S} : Copy(s)
        \/ (Len(hist) < Depth /\ UNCHANGED vars)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* a context that was told a sequence number never works with the master key or the bare IV of another record
Fresh == \A s \in 1..NSlots : slot[s].tree # <<>> => slot[s].tree[3] = Mask(slot[s].tree[3], Ignore(slot[s].alg)[3])
=============================================================================

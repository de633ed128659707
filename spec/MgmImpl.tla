------------------------------ MODULE MgmImpl ------------------------------
(* The MGM machine of the engine in gost_gost2015.c, with symbolic bytes.

   Meaning (RFC 9058): message byte i is XORed with byte i%B of E(Y_(i/B+1)); the
   tag is E of the sum over i of H_i * block_i, H_i = E(Z_i), the blocks being the
   associated data (last block zero padded), then the ciphertext (likewise), then
   the two lengths.  So a finished message is determined by the SET of pairs
   <<i, block_i>> and by the key and nonce that were in force.

   The code keeps: a Z index, a partially filled block shared by associated data
   and text (ares/mres), an accumulator, and a POINTER to the key schedule.
   Design switches, all TRUE in the engine; each removed one must be noticed.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS B, MaxA, MaxM, Slots, Keys, Ivs,
          Z1AtNonce,    \* Z_1 is derived whether or not associated data comes
          ZeroKeeps,    \* a zero-length message call does not close the associated data
          NonceKept,    \* a nonce given with a key is remembered for a key given later
          CopyRepoints  \* a copy uses its own key schedule
VARIABLES c, a, last
vars == <<c, a, last>>

Dead == [live |-> FALSE, key |-> 0, kptr |-> 0, ivset |-> FALSE, iv |-> 0, saved |-> 0, zi |-> 0,
         acc |-> {}, ares |-> 0, mres |-> 0, blk |-> <<>>, alen |-> 0, mlen |-> 0, used |-> {}]
ADead == [live |-> FALSE, key |-> 0, iv |-> 0, alen |-> 0, mlen |-> 0, dec |-> FALSE]
NoRes == [k |-> "none", s |-> 0, acc |-> {}, used |-> {}, iv |-> 0]
Init == c = [s \in Slots |-> Dead] /\ a = [s \in Slots |-> ADead] /\ last = NoRes

(* ---- definition ---------------------------------------------------------- *)
NB(n) == (n + B - 1) \div B
Blk(tag, n, j) == [i \in 1..B |-> IF (j - 1) * B + i <= n THEN <<tag, (j - 1) * B + i>> ELSE <<"0">>]
Def(al, ml) == {<<j, Blk("A", al, j)>> : j \in 1..NB(al)}
               \cup {<<NB(al) + j, Blk("C", ml, j)>> : j \in 1..NB(ml)}
               \cup {<<NB(al) + NB(ml) + 1, <<"len", al, ml>>>>}

(* ---- machine ------------------------------------------------------------- *)
KeyOf(x) == c[x.kptr].key
Mul(x, b) == [x EXCEPT !.acc = @ \cup {<<x.zi, b>>}, !.zi = IF x.zi = 0 THEN 0 ELSE @ + 1, !.used = @ \cup {KeyOf(x)}]
SetNonce(x, v) == [x EXCEPT !.iv = v, !.zi = IF Z1AtNonce THEN 1 ELSE 0, !.acc = {}, !.ares = 0, !.mres = 0,
                            !.blk = <<>>, !.alen = 0, !.mlen = 0, !.used = {}]
Pad(b) == b \o [i \in 1..(B - Len(b)) |-> <<"0">>]

RECURSIVE Feed(_, _, _, _)
Feed(x, tag, pos, n) ==
   IF n = 0 THEN x
   ELSE LET b == Append(x.blk, <<tag, pos + 1>>)
            y == IF Len(b) = B THEN Mul([x EXCEPT !.blk = <<>>], b) ELSE [x EXCEPT !.blk = b]
        IN Feed(y, tag, pos + 1, n - 1)

Start(s, k, v, dec) ==
   /\ (k # 0 \/ v # 0)
   /\ LET x == c[s]
          iv1 == IF v # 0 THEN v ELSE IF k # 0 /\ x.ivset THEN x.saved ELSE 0
          y == [x EXCEPT !.live = TRUE, !.key = IF k # 0 THEN k ELSE @, !.kptr = IF k # 0 THEN s ELSE @]
          z == IF iv1 # 0 THEN (IF y.key # 0 THEN SetNonce(y, iv1) ELSE y) ELSE y
          w == [z EXCEPT !.ivset = @ \/ iv1 # 0, !.saved = IF v # 0 /\ (NonceKept \/ (x.key = 0 /\ k = 0)) THEN v ELSE @]
      IN c' = [c EXCEPT ![s] = w]
   /\ a' = [a EXCEPT ![s] = [live |-> TRUE, key |-> IF k # 0 THEN k ELSE @.key,
              iv |-> IF v # 0 THEN v ELSE @.iv, alen |-> 0, mlen |-> 0, dec |-> dec]]
   /\ last' = NoRes

Ready(s) == c[s].live /\ c[s].key # 0 /\ c[s].ivset

Aad(s, n) ==
   /\ Ready(s) /\ a[s].alen + n <= MaxA
   /\ IF c[s].mlen > 0
      THEN UNCHANGED <<c, a>> /\ last' = [NoRes EXCEPT !.k = "refused", !.s = s]
      ELSE /\ LET x == c[s]
                  y == IF x.alen = 0 /\ x.zi = 0 THEN [x EXCEPT !.zi = 1] ELSE x
                  f == Feed(y, "A", x.alen, n)
              IN c' = [c EXCEPT ![s] = [f EXCEPT !.alen = @ + n, !.ares = Len(f.blk)]]
           /\ a' = [a EXCEPT ![s].alen = @ + n] /\ last' = NoRes

Msg(s, n) ==
   /\ Ready(s) /\ a[s].mlen + n <= MaxM
   /\ LET x == c[s]
          y == IF x.mlen = 0 /\ x.alen = 0 /\ x.zi = 0 /\ ~a[s].dec THEN [x EXCEPT !.zi = 1] ELSE x
          z == IF y.ares > 0 /\ (n > 0 \/ ~ZeroKeeps) THEN [Mul([y EXCEPT !.blk = <<>>], Pad(y.blk)) EXCEPT !.ares = 0] ELSE y
          f == Feed(z, "C", x.mlen, n)
      IN c' = [c EXCEPT ![s] = [f EXCEPT !.mlen = @ + n, !.mres = IF n > 0 THEN Len(f.blk) ELSE @]]
   /\ a' = [a EXCEPT ![s].mlen = @ + n] /\ last' = NoRes

Fin(s) ==
   /\ Ready(s)
   /\ LET x == c[s]
          y == IF x.mres > 0 \/ x.ares > 0 THEN Mul([x EXCEPT !.blk = <<>>], Pad(x.blk)) ELSE x
          z == Mul(y, <<"len", x.alen, x.mlen>>)
      IN /\ c' = [c EXCEPT ![s].ivset = FALSE]
         /\ last' = [k |-> "fin", s |-> s, acc |-> z.acc, used |-> z.used, iv |-> x.iv]
   /\ a' = [a EXCEPT ![s].iv = 0]      \* the nonce is spent

Copy(s, t) ==
   /\ s # t /\ c[s].live
   /\ c' = [c EXCEPT ![t] = [c[s] EXCEPT !.kptr = IF @ # 0 /\ CopyRepoints THEN t ELSE @]]
   /\ a' = [a EXCEPT ![t] = a[s]] /\ last' = NoRes
Free(s) == /\ c[s].live /\ c' = [c EXCEPT ![s] = Dead] /\ a' = [a EXCEPT ![s] = ADead] /\ last' = NoRes

Next == \/ \E s \in Slots, k \in Keys \cup {0}, v \in Ivs \cup {0}, d \in BOOLEAN : Start(s, k, v, d)
        \/ \E s \in Slots, n \in 0..(B + 1) : Aad(s, n)
        \/ \E s \in Slots, n \in 0..(B + 1) : Msg(s, n)
        \/ \E s \in Slots : Fin(s)
        \/ \E s, t \in Slots : Copy(s, t)
        \/ \E s \in Slots : Free(s)

(* ---- properties: what is authenticated is exactly what was given, under the key and nonce in force *)
Tagged == last.k = "fin" =>
   LET m == a[last.s] IN /\ last.acc = Def(m.alen, m.mlen) /\ last.used = {m.key} /\ last.iv # 0
NonceOk == \A s \in Slots : Ready(s) => a[s].iv # 0 /\ c[s].iv = a[s].iv
OrderOk == last.k = "refused" => a[last.s].mlen > 0
=============================================================================

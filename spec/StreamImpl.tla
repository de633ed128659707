----------------------------- MODULE StreamImpl -----------------------------
(* The stream-mode machines of the engine, shaped like the code: a "num" byte
   index, a keystream buffer, an IV register, a key epoch and a byte count, cut
   by the caller into arbitrary updates.  Four machines:

     numctr  magma-ctr, magma-ctr-acpkm, kuznyechik-ctr-acpkm   (gost_crypt.c
             magma_cipher_do_ctr, gost_grasshopper_cipher.c do_ctracpkm)
     blkctr  kuznyechik-ctr   (do_ctr: num taken modulo the block size)
     regofb  gost89-cnt (register = "step"), kuznyechik-ofb (register = "E")
     regcfb  gost89 and kuznyechik-cfb

   Checked: every output byte is XORed with exactly the keystream byte Modes.tla
   gives for its position, whatever the cutting, re-initialisation and copying. *)
EXTENDS Modes, FiniteSets, TLC

CONSTANTS Machine, Lazy,     \* Lazy: the last full block is left to the tail branch (kuznyechik ofb/cfb)
          CntMode,           \* regofb: "cnt" or "ofb"
          B, S, MaxPos, Slots, Keys, Ivs,
          ResetNum, ResetCtr, ResetKey   \* what (re)initialisation resets; the design needs all three

VARIABLES c,      \* slot -> code-shaped context
          a,      \* slot -> abstract context: key, iv, pos of the message it is working on
          last    \* what the last Update produced: [slot, from, ks]
vars == <<c, a, last>>

Mode == CASE Machine \in {"numctr", "blkctr"} -> "ctr" [] Machine = "regofb" -> CntMode [] OTHER -> "cfb"
NoBlk == <<"none">>
Dead == [live |-> FALSE, key |-> 0, ep |-> 0, reg |-> <<"none">>, ctr |-> 0, num |-> 0, buf |-> NoBlk,
         count |-> 0, iv |-> 0, cblk |-> 0]
ADead == [live |-> FALSE, key |-> 0, iv |-> 0, pos |-> 0]

Init == /\ c = [s \in Slots |-> Dead] /\ a = [s \in Slots |-> ADead]
        /\ last = [slot |-> 0, from |-> 0, ks |-> <<>>]

(* ---------------------------------------------------------------- machines *)
\* numctr: apply_acpkm then encrypt the counter
NumCtrBlock(x) ==
   LET mesh == S # 0 /\ x.num >= S
       ep == IF mesh THEN x.ep + 1 ELSE x.ep
       nm == IF mesh THEN x.num % B ELSE x.num
   IN [x EXCEPT !.ep = ep, !.num = nm, !.buf = <<"E", x.key, ep, <<"ctr", x.iv, x.ctr>>>>, !.ctr = x.ctr + 1]

RECURSIVE NumCtr(_, _, _)
NumCtr(x, n, out) ==
   IF n = 0 THEN [x |-> x, out |-> out]
   ELSE IF x.num % B # 0
        THEN NumCtr([x EXCEPT !.num = @ + 1], n - 1, Append(out, [blk |-> x.buf, off |-> x.num % B]))
   ELSE LET y == NumCtrBlock(x)
            h == Min(n, B)
        IN NumCtr([y EXCEPT !.num = @ + h], n - h, out \o [j \in 1..h |-> [blk |-> y.buf, off |-> j - 1]])

RECURSIVE BlkCtr(_, _, _)
BlkCtr(x, n, out) ==
   IF n = 0 THEN [x |-> x, out |-> out]
   ELSE IF x.num # 0
        THEN BlkCtr([x EXCEPT !.num = (@ + 1) % B], n - 1, Append(out, [blk |-> x.buf, off |-> x.num]))
   ELSE LET y == [x EXCEPT !.buf = <<"E", x.key, 0, <<"ctr", x.iv, x.ctr>>>>, !.ctr = x.ctr + 1]
            h == Min(n, B)
        IN BlkCtr([y EXCEPT !.num = h % B], n - h, out \o [j \in 1..h |-> [blk |-> y.buf, off |-> j - 1]])

\* one keystream block of the register machines; count runs modulo S, at S the key is meshed first
RegBlock(x) ==
   LET mesh == S # 0 /\ x.count = S
       ep == IF mesh THEN x.ep + 1 ELSE x.ep
       r0 == IF mesh THEN <<"E", x.key, ep, x.reg>> ELSE x.reg
       r1 == IF Mode = "cnt" THEN <<"step", IF x.count = 0 THEN <<"E", x.key, ep, r0>> ELSE r0>> ELSE r0
       b  == <<"E", x.key, ep, r1>>
   IN [x EXCEPT !.ep = ep, !.buf = b, !.cblk = @ + 1,
                !.count = IF S = 0 THEN @ + B ELSE (@ % S) + B,
                !.reg = IF Mode = "cnt" THEN r1 ELSE IF Mode = "ofb" THEN b ELSE r0]

RECURSIVE RegTail(_, _, _)
\* full blocks, then the rest.  cfb: the register becomes the ciphertext block once it is complete
RegTail(x, n, out) ==
   IF n = 0 THEN [x |-> [x EXCEPT !.num = 0], out |-> out]
   ELSE IF n > B \/ (n = B /\ ~Lazy)
        THEN LET y == RegBlock(x)
                 z == IF Mode = "cfb" THEN [y EXCEPT !.reg = <<"cb", y.cblk - 1>>] ELSE y
             IN RegTail(z, n - B, out \o [j \in 1..B |-> [blk |-> y.buf, off |-> j - 1]])
   ELSE LET y == RegBlock(x)
        IN [x |-> [y EXCEPT !.num = n], out |-> out \o [j \in 1..n |-> [blk |-> y.buf, off |-> j - 1]]]

RegUpdate(x, n) ==
   IF x.num > 0
   THEN LET h == Min(n, B - x.num)
            o == [j \in 1..h |-> [blk |-> x.buf, off |-> x.num + j - 1]]
            full == x.num + h = B
            y == IF full THEN [x EXCEPT !.num = 0, !.reg = IF Mode = "cfb" THEN <<"cb", x.cblk - 1>> ELSE @]
                 ELSE [x EXCEPT !.num = x.num + h]
        IN IF full THEN RegTail(y, n - h, o) ELSE [x |-> y, out |-> o]
   ELSE RegTail(x, n, <<>>)

Run(x, n) == CASE Machine = "numctr" -> NumCtr(x, n, <<>>)
               [] Machine = "blkctr" -> BlkCtr(x, n, <<>>)
               [] OTHER -> RegUpdate(x, n)

(* ----------------------------------------------------------------- actions *)
\* key = 0 / iv = 0: not given in this call
Start(s, k, v) ==
   /\ a[s].live \/ (k # 0 /\ v # 0)
   /\ LET o == c[s]
          key == IF k # 0 THEN k ELSE o.key
          iv  == IF v # 0 THEN v ELSE o.iv
          fresh == ~a[s].live
      IN /\ c' = [c EXCEPT ![s] =
              [live |-> TRUE, key |-> key, iv |-> iv,
               ep |-> IF k # 0 \/ ResetKey THEN 0 ELSE o.ep,
               reg |-> <<"iv", iv>>,
               ctr |-> IF fresh \/ ResetCtr THEN 0 ELSE o.ctr,
               num |-> IF fresh \/ ResetNum THEN 0 ELSE o.num,
               buf |-> o.buf, cblk |-> 0,
               count |-> IF fresh \/ ResetNum THEN 0 ELSE o.count]]
         /\ a' = [a EXCEPT ![s] = [live |-> TRUE, key |-> key, iv |-> iv, pos |-> 0]]
   /\ last' = [slot |-> 0, from |-> 0, ks |-> <<>>]

Update(s, n) ==
   /\ a[s].live /\ a[s].pos + n <= MaxPos
   /\ LET r == Run(c[s], n)
      IN /\ c' = [c EXCEPT ![s] = r.x]
         /\ last' = [slot |-> s, from |-> a[s].pos, ks |-> r.out]
   /\ a' = [a EXCEPT ![s].pos = @ + n]

Copy(s, t) ==
   /\ s # t /\ a[s].live
   /\ c' = [c EXCEPT ![t] = c[s]] /\ a' = [a EXCEPT ![t] = a[s]]
   /\ last' = [slot |-> 0, from |-> 0, ks |-> <<>>]

Next == \/ \E s \in Slots, k \in Keys \cup {0}, v \in Ivs \cup {0} : Start(s, k, v)
        \/ \E s \in Slots, n \in 0..(2 * B + 1) : Update(s, n)
        \/ \E s, t \in Slots : Copy(s, t)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
\* C01, C03, C04, C05 for the design: each byte has its own position's keystream
Meaning ==
   last.slot # 0 =>
      LET m == a[last.slot]
      IN /\ Len(last.ks) = m.pos - last.from
         /\ \A j \in 1..Len(last.ks) :
               last.ks[j] = KsByte(Mode, m.key, m.iv, B, S, last.from + j - 1)
NumInRange == \A s \in Slots : a[s].live =>
   (Machine = "numctr" => c[s].num % B = a[s].pos % B /\ c[s].num <= IF S = 0 THEN MaxPos ELSE S)
CountOk == (S # 0 /\ Machine \in {"regofb", "regcfb"}) => \A s \in Slots : c[s].count % B = 0 /\ c[s].count <= S
=============================================================================

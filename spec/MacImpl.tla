------------------------------ MODULE MacImpl ------------------------------
(* The MAC machines of the engine with symbolic bytes:
     "imit"   gost_imit_* in gost_crypt.c: the last block is held back, zero padded;
              a one-block message gets a block of zeros after it; the key is meshed
              before the block that starts each new section of S bytes;
     "acpkm"  CMAC_ACPKM_* in gost_omac_acpkm.c: the last block is held back and
              XORed with K1 or (padded) K2 of its own section.
   A finished MAC is determined by the sequence of <<block, section>> processed.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Machine, B, S, Max, Slots, Msgs,
          HoldBack,      \* a completed block waits until more data comes
          ClearOnInit,   \* setting a key forgets data, count and section
          MeshAtFinal    \* the section change is also made before the last block
VARIABLES c, a, out
vars == <<c, a, out>>
New == [live |-> TRUE, blks |-> <<>>, buf |-> <<>>, cnt |-> 0, sec |-> 0]
Dead == [New EXCEPT !.live = FALSE]
Init == c = [s \in Slots |-> Dead] /\ a = [s \in Slots |-> [m |-> 0, len |-> 0, done |-> FALSE]] /\ out = <<>>
Z(n) == [i \in 1..n |-> <<"0">>]

\* the engine counts bytes in the section and changes the key when a block comes at count = S
Mesh(x) == IF x.cnt = S THEN [x EXCEPT !.cnt = 0, !.sec = @ + 1] ELSE x
Proc(x, b) == LET y == Mesh(x) IN [y EXCEPT !.blks = Append(@, <<b, y.sec>>), !.cnt = @ + B]
RECURSIVE Blocks(_, _)
Blocks(x, d) == IF Len(d) > B THEN Blocks(Proc(x, SubSeq(d, 1, B)), SubSeq(d, B + 1, Len(d))) ELSE [x EXCEPT !.buf = d]
Upd(x, d) ==
  IF Len(x.buf) > 0
  THEN LET k == IF B - Len(x.buf) > Len(d) THEN Len(d) ELSE B - Len(x.buf)
           b == x.buf \o SubSeq(d, 1, k)
           r == SubSeq(d, k + 1, Len(d))
       IN IF r = <<>> /\ (HoldBack \/ Len(b) < B) THEN [x EXCEPT !.buf = b]
          ELSE IF Len(b) = B THEN Blocks(Proc([x EXCEPT !.buf = <<>>], b), r) ELSE [x EXCEPT !.buf = b]
  ELSE IF d = <<>> THEN x ELSE Blocks(x, d)
Fin(x) ==
  IF Machine = "imit"
  THEN LET one == x.cnt = 0 /\ x.sec = 0 /\ x.buf # <<>>
           y == IF x.buf # <<>> THEN Proc(x, x.buf \o Z(B - Len(x.buf))) ELSE x
       IN IF one THEN Proc(y, Z(B)).blks ELSE y.blks
  ELSE LET y == IF MeshAtFinal THEN Mesh(x) ELSE x
       IN Append(y.blks, <<IF Len(x.buf) = B THEN <<"K1", x.buf>> ELSE <<"K2", x.buf \o Z(B - Len(x.buf))>>, y.sec>>)

(* ---- definition ------------------------------------------------------------ *)
NB(n) == (n + B - 1) \div B
Blk(m, n, j) == [i \in 1..B |-> IF (j - 1) * B + i <= n THEN <<m, (j - 1) * B + i>> ELSE <<"0">>]
Sec(j) == ((j - 1) * B) \div S
Def(m, n) ==
  IF Machine = "imit"
  THEN LET f == [j \in 1..NB(n) |-> <<Blk(m, n, j), Sec(j)>>] IN IF NB(n) = 1 THEN Append(f, <<Z(B), Sec(2)>>) ELSE f
  ELSE LET k == IF n = 0 THEN 1 ELSE NB(n)
           f == [j \in 1..(k - 1) |-> <<Blk(m, n, j), Sec(j)>>]
       IN Append(f, <<IF n > 0 /\ n % B = 0 THEN <<"K1", Blk(m, n, k)>> ELSE <<"K2", Blk(m, n, k)>>, Sec(k)>>)

Key(s, m) == /\ c' = [c EXCEPT ![s] = IF ClearOnInit \/ ~c[s].live THEN New ELSE [@ EXCEPT !.blks = <<>>]]
             /\ a' = [a EXCEPT ![s] = [m |-> m, len |-> 0, done |-> FALSE]] /\ out' = <<>>
Update(s, n) == /\ c[s].live /\ ~a[s].done /\ a[s].len + n <= Max
                /\ c' = [c EXCEPT ![s] = Upd(c[s], [i \in 1..n |-> <<a[s].m, a[s].len + i>>])]
                /\ a' = [a EXCEPT ![s].len = @ + n] /\ out' = <<>>
Final(s) == c[s].live /\ ~a[s].done /\ out' = <<s, Fin(c[s])>> /\ a' = [a EXCEPT ![s].done = TRUE] /\ UNCHANGED c
Copy(s, t) == s # t /\ c[s].live /\ c' = [c EXCEPT ![t] = c[s]] /\ a' = [a EXCEPT ![t] = a[s]] /\ out' = <<>>
Next == \/ \E s \in Slots, m \in Msgs : Key(s, m)
        \/ \E s \in Slots, n \in 0..(2 * B + 1) : Update(s, n)
        \/ \E s \in Slots : Final(s)
        \/ \E s, t \in Slots : Copy(s, t)
Standard == out # <<>> => out[2] = Def(a[out[1]].m, a[out[1]].len)
\* at least one byte is always held back once data has come
Held == \A s \in Slots : c[s].live /\ a[s].len > 0 => Len(c[s].buf) \in 1..B
=============================================================================

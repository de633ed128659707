------------------------------ MODULE HashImpl ------------------------------
(* The two block-buffering machines of the engine's digests, with symbolic bytes
   <<message, position>>:
     "h94"   gosthash.c: fill the remainder first, hash it, then hash whole blocks
             straight from the caller's memory, keep the rest;
     "h2012" gosthash2012.c: whole blocks from the caller only when nothing is
             buffered, otherwise through the buffer.
   The digest of a finished message is determined by the sequence of compressed
   blocks, the byte count and the multiset summed into the checksum; these must be
   those of the definition for every cutting, on every context, copies included.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Machine, B, Max, Slots, Msgs,
          FillFirst,      \* the buffered bytes go in front of the new ones
          ClearOnInit,    \* initialising forgets the buffered bytes, count and checksum
          TakeDigest      \* a digest may be asked for only once and then needs a new init
VARIABLES c, a, out
vars == <<c, a, out>>
New == [live |-> TRUE, blks |-> <<>>, sum |-> <<>>, len |-> 0, buf |-> <<>>, done |-> FALSE]
Dead == [New EXCEPT !.live = FALSE]
Init == c = [s \in Slots |-> Dead] /\ a = [s \in Slots |-> [m |-> 0, len |-> 0, done |-> FALSE]] /\ out = <<>>

Compress(x, b) == [x EXCEPT !.blks = Append(@, b), !.sum = Append(@, b), !.len = @ + B]
RECURSIVE Whole(_, _)
Whole(x, d) == IF Len(d) >= B THEN Whole(Compress(x, SubSeq(d, 1, B)), SubSeq(d, B + 1, Len(d))) ELSE <<x, d>>
RECURSIVE Buffered(_, _)
Buffered(x, d) ==
  IF d = <<>> THEN x
  ELSE LET k == IF B - Len(x.buf) > Len(d) THEN Len(d) ELSE B - Len(x.buf)
           y == [x EXCEPT !.buf = @ \o SubSeq(d, 1, k)]
           r == SubSeq(d, k + 1, Len(d))
       IN IF Len(y.buf) = B THEN Buffered([Compress(y, y.buf) EXCEPT !.buf = <<>>], r) ELSE Buffered(y, r)
Upd94(x, d) ==
  IF x.buf # <<>> /\ FillFirst
  THEN LET k == IF B - Len(x.buf) > Len(d) THEN Len(d) ELSE B - Len(x.buf)
           y == [x EXCEPT !.buf = @ \o SubSeq(d, 1, k)]
       IN IF Len(y.buf) < B THEN y
          ELSE LET w == Whole([Compress(y, y.buf) EXCEPT !.buf = <<>>], SubSeq(d, k + 1, Len(d))) IN
               IF w[2] # <<>> THEN [w[1] EXCEPT !.buf = w[2]] ELSE w[1]
  ELSE LET w == Whole(x, d) IN IF w[2] # <<>> THEN [w[1] EXCEPT !.buf = w[2]] ELSE w[1]
Upd2012(x, d) == IF x.buf = <<>> \/ ~FillFirst THEN LET w == Whole(x, d) IN Buffered(w[1], w[2]) ELSE Buffered(x, d)

Pad(b) == IF Machine = "h94" THEN b \o [i \in 1..(B - Len(b)) |-> <<"0">>]
          ELSE b \o [i \in 1..(B - Len(b)) |-> IF i = 1 THEN <<"1">> ELSE <<"0">>]
Finish(x) ==
  IF Machine = "h94"
  THEN LET y == IF x.buf # <<>> THEN [x EXCEPT !.blks = Append(@, Pad(x.buf)), !.sum = Append(@, Pad(x.buf)), !.len = @ + Len(x.buf)] ELSE x
           z == IF y.len = 0 THEN [y EXCEPT !.blks = Append(@, Pad(<<>>))] ELSE y     \* the empty message: one block of zeros
       IN <<z.blks, z.len, z.sum>>
  ELSE LET y == [x EXCEPT !.blks = Append(@, Pad(x.buf)), !.sum = Append(@, Pad(x.buf)), !.len = @ + Len(x.buf)] IN <<y.blks, y.len, y.sum>>

(* ---- definition: cut the message into blocks; pad the last one ------------- *)
Msg(m, n) == [i \in 1..n |-> <<m, i>>]
Chunk(d, j) == SubSeq(d, (j - 1) * B + 1, IF j * B > Len(d) THEN Len(d) ELSE j * B)
Def(m, n) ==
  LET d == Msg(m, n)
      full == n \div B
      rest == SubSeq(d, full * B + 1, n)
      f == [j \in 1..full |-> Chunk(d, j)]
      bl == IF Machine = "h94" THEN (IF rest # <<>> \/ n = 0 THEN Append(f, Pad(rest)) ELSE f) ELSE Append(f, Pad(rest))
      sm == IF Machine = "h94" /\ n = 0 THEN <<>> ELSE bl
  IN <<bl, n, sm>>

Start(s, m) == /\ c' = [c EXCEPT ![s] = IF ClearOnInit \/ ~c[s].live THEN New ELSE [@ EXCEPT !.done = FALSE, !.blks = <<>>, !.len = 0, !.sum = <<>>]]
               /\ a' = [a EXCEPT ![s] = [m |-> m, len |-> 0, done |-> FALSE]] /\ out' = <<>>
Update(s, n) == /\ c[s].live /\ ~a[s].done /\ a[s].len + n <= Max
                /\ LET d == [i \in 1..n |-> <<a[s].m, a[s].len + i>>] IN
                   c' = [c EXCEPT ![s] = IF Machine = "h94" THEN Upd94(c[s], d) ELSE Upd2012(c[s], d)]
                /\ a' = [a EXCEPT ![s].len = @ + n] /\ out' = <<>>
Final(s) == /\ c[s].live /\ (~a[s].done \/ ~TakeDigest)
            /\ out' = <<s, Finish(c[s])>>
            /\ c' = [c EXCEPT ![s] = IF Machine = "h2012" THEN [@ EXCEPT !.buf = <<>>, !.blks = Append(@, Pad(c[s].buf))] ELSE @]
            /\ a' = [a EXCEPT ![s].done = TRUE]
Copy(s, t) == /\ s # t /\ c[s].live /\ c' = [c EXCEPT ![t] = c[s]] /\ a' = [a EXCEPT ![t] = a[s]] /\ out' = <<>>
Next == \/ \E s \in Slots, m \in Msgs : Start(s, m)
        \/ \E s \in Slots, n \in 0..(2 * B + 1) : Update(s, n)
        \/ \E s \in Slots : Final(s)
        \/ \E s, t \in Slots : Copy(s, t)
Standard == out # <<>> => out[2] = Def(a[out[1]].m, a[out[1]].len)
Room == \A s \in Slots : Len(c[s].buf) < B
=============================================================================

------------------------------ MODULE KWrapApi ------------------------------
(* The kexp15 wrap ciphers as CMS uses them: keys, IV, then the exported key in
   pieces; the key comes out with the piece that completes it, once; every other
   way of going on is refused.  Encryption is not offered.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Alg
VARIABLES s, hist
vars == <<s, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
B2N(b) == IF b THEN 1 ELSE 0
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
N == IF Alg = "m" THEN 40 ELSE 48
None == [st |-> "none", key |-> 0, iv |-> 0, got |-> 0, blob |-> 0, bad |-> 0, done |-> 0]
Init == s = None /\ hist = <<>>
KInit == \E k \in {Rnd(0..2)}, v \in {Rnd(0..2)}, new \in {Rnd({0, 1})}, enc \in {B2N(Coin(12))} :
  LET re == new = 0 /\ s.st # "none"
      key == IF k = 0 /\ ~re THEN 1 ELSE k   iv == IF v = 0 /\ ~re THEN 1 ELSE v
  IN /\ s.st = "none" \/ s.done = 1 \/ Coin(4)
     /\ s' = [None EXCEPT !.st = IF enc = 1 THEN "enc" ELSE "run", !.key = IF key = 0 THEN s.key ELSE key, !.iv = IF iv = 0 THEN s.iv ELSE iv]
     /\ Log([op |-> "init", new |-> B2N(~re), key |-> key, iv |-> iv, enc |-> enc])
\* which export: the one for the receiver's own key and IV, or another; `bad` counts what was altered on the way
Piece == /\ s.st = "run" /\ (s.done = 0 \/ Coin(3))
  /\ \E n \in {Rnd({0, 1, 8, 31, 32, 33, N - 1, N, N + 1, N - s.got, N - s.got + 1, Rnd(0..(N + 4))})}, f \in {IF Coin(8) THEN 1 ELSE 0},
        b \in {IF s.got = 0 /\ Coin(8) THEN Rnd({11, 12, 21, 22}) ELSE IF s.got = 0 THEN 10 * s.key + s.iv ELSE s.blob} :
     /\ n >= 0
     /\ LET fits == n <= N - s.got
            full == fits /\ n > 0 /\ s.got + n = N
            bad == s.bad + (IF n > 0 THEN f ELSE 0)
            key == full /\ bad = 0 /\ b = 10 * s.key + s.iv
        IN /\ s' = IF ~fits \/ n = 0 THEN s ELSE [s EXCEPT !.got = IF full /\ ~key THEN 0 ELSE @ + n, !.blob = b, !.bad = IF full THEN 0 ELSE bad, !.done = IF key THEN 1 ELSE @]
           /\ Log([op |-> "piece", off |-> s.got, n |-> n, flip |-> f, blob |-> b, key |-> b \div 10, out |-> IF ~fits \/ (full /\ ~key) THEN -1 ELSE IF key THEN 32 ELSE 0])
Size == /\ s.st = "run" /\ Coin(4) /\ UNCHANGED s /\ Log([op |-> "size"])
Fin == /\ s.st = "run" /\ (s.done = 1 \/ Coin(4)) /\ UNCHANGED s /\ Log([op |-> "fin", ok |-> s.done])
Enc == /\ s.st = "enc" /\ \E n \in {Rnd({1, 32, 40, 48})} : UNCHANGED s /\ Log([op |-> "enc", n |-> n])
Next == KInit \/ Piece \/ Piece \/ Piece \/ Size \/ Fin \/ Enc \/ (Len(hist) < Depth /\ UNCHANGED vars)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* the key never comes out of an incomplete or altered export
Sound == s.done = 1 => s.got = N /\ s.bad = 0
=============================================================================

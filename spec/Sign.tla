-------------------------------- MODULE Sign --------------------------------
(* GOST R 34.10 on a tiny curve y^2 = x^3 + A x + B over the integers modulo P whose
   points form a group of prime order Q: every private key, digest value and nonce for
   signing, every pair (r, s) for verifying.  Removable: the range checks on r and s,
   the redrawing for k = 0, r = 0 and s = 0, the adjustment of a zero digest (for each
   side), the refusal of the point at infinity.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, A, B, Q, GX, GY, RangeR, RangeS, Redraw, FixSign, FixVerify, Keys, Part
VARIABLES d, e, k, r, s, ph
vars == <<d, e, k, r, s, ph>>
InvP == TLCEval([x \in 1..(P - 1) |-> CHOOSE y \in 1..(P - 1) : (x * y) % P = 1])
InvQ == TLCEval([x \in 1..(Q - 1) |-> CHOOSE y \in 1..(Q - 1) : (x * y) % Q = 1])
Inv(x, m) == IF m = P THEN InvP[x] ELSE InvQ[x]
Mod(x, m) == x % m
Add(p, q) ==
  IF p = <<>> THEN q ELSE IF q = <<>> THEN p
  ELSE IF p[1] = q[1] /\ (p[2] + q[2]) % P = 0 THEN <<>>
  ELSE LET l == IF p = q THEN ((3 * p[1] * p[1] + A) * Inv((2 * p[2]) % P, P)) % P
                ELSE (((q[2] - p[2]) % P) * Inv((q[1] - p[1]) % P, P)) % P
           x == (l * l - p[1] - q[1]) % P
       IN <<x, (l * (p[1] - x) - p[2]) % P>>
MulR[n \in 0..(Q - 1)] == IF n = 0 THEN <<>> ELSE Add(MulR[n - 1], <<GX, GY>>)
Mul == TLCEval([n \in 0..(Q - 1) |-> TLCEval(MulR[n])])
ASSUME Add(Mul[Q - 1], <<GX, GY>>) = <<>>
Adj(x, fix) == IF fix /\ x % Q = 0 THEN 1 ELSE x % Q
R(n) == IF Mul[n % Q] = <<>> THEN 0 ELSE Mul[n % Q][1] % Q
Signature(dd, ee, kk) ==
  LET rr == R(kk)
      ss == (rr * dd + kk * Adj(ee, FixSign)) % Q
  IN IF Redraw /\ (kk % Q = 0 \/ rr = 0 \/ ss = 0) THEN <<>> ELSE <<rr, ss>>
Verify(dd, ee, rr, ss) ==
  /\ RangeR => (rr > 0 /\ rr < Q)
  /\ RangeS => (ss > 0 /\ ss < Q)
  /\ Adj(ee, FixVerify) # 0
  /\ LET v == Inv(Adj(ee, FixVerify), Q)
         c == (((ss * v) % Q) + ((((Q - (rr % Q)) * v) % Q) * dd)) % Q
     IN Mul[c] # <<>> /\ Mul[c][1] % Q = (IF RangeR THEN rr ELSE rr % Q)
\* one part checks all signatures, the other all candidates for a signature
Init == /\ d \in (IF Part = "sign" THEN 1..(Q - 1) ELSE Keys) /\ e \in (IF Part = "sign" THEN 0..(2 * Q) ELSE {0, 1, 5, Q, Q + 5})
        /\ k \in (IF Part = "sign" THEN 0..Q ELSE {0}) /\ r \in (IF Part = "sign" THEN {0} ELSE 0..(2 * Q)) /\ s \in (IF Part = "sign" THEN {0} ELSE 0..(2 * Q))
        /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<d, e, k, r, s>>
Sig == Signature(d, e, k)
Complete == ph = 1 /\ Part = "sign" /\ Sig # <<>> => Verify(d, e, Sig[1], Sig[2])
InRange == ph = 1 /\ Part = "sign" /\ Sig # <<>> => Sig[1] \in 1..(Q - 1) /\ Sig[2] \in 1..(Q - 1)
\* the signature does not give the key away by itself: s = 0 or r = 0 would
NotBare == ph = 1 /\ Part = "sign" /\ Sig # <<>> => k % Q # 0
Congruent == ph = 1 /\ Part = "sign" /\ Sig # <<>> => Verify(d, e + Q, Sig[1], Sig[2])
\* what is accepted is in range and is a signature that the owner of the key could have made
Strict == ph = 1 /\ Part = "verify" /\ Verify(d, e, r, s) => r \in 1..(Q - 1) /\ s \in 1..(Q - 1)
Made == ph = 1 /\ Part = "verify" /\ Verify(d, e, r, s) => \E kk \in 1..(Q - 1) : Signature(d, e, kk) = <<r, s>>
OneDigest == ph = 1 /\ Part = "verify" /\ Verify(d, e, r, s) => \A x \in 0..(Q - 1) : Verify(d, x, r, s) => (Adj(x, TRUE) = Adj(e, TRUE)) \/ R((((s - r * d) % Q) * Inv(Adj(x, TRUE), Q)) % Q) = r
=============================================================================

-------------------------------- MODULE Agree --------------------------------
(* Key agreement in a group with cofactor.  Points are the integers modulo H*Q, the
   base point is H (of order Q), a private key d is 1..Q-1 and its public key d*H.
   The peer's point is anything the adversary likes.  Derive is the multiplication the
   code performs: the scalar is UKM*d reduced modulo Q, and the cofactor is applied to
   the resulting point.  Removable: the cofactor, its place, the refusal of the point at
   infinity, and the adjustment of a zero UKM.                                          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Q, H, U, Cofactor, Place, Refuse, Adjust
VARIABLES d1, d2, u, p, done
vars == <<d1, d2, u, p, done>>
N == H * Q
Pub(d) == (d * H) % N
Mul(k, x) == (k * x) % N
Ukm(x) == IF Adjust /\ x = 0 THEN 1 ELSE x
Derive(d, x, pt) ==
  LET s == (Ukm(x) * d) % Q
      r == IF ~Cofactor THEN Mul(s, pt)
           ELSE IF Place = "point" THEN Mul(H, Mul(s, pt))
           ELSE Mul((s * H) % Q, pt)
  IN IF r = 0 /\ Refuse THEN <<>> ELSE <<r>>
Init == d1 \in 1..(Q - 1) /\ d2 \in 1..(Q - 1) /\ u \in 0..U /\ p \in 0..(N - 1) /\ done = 0
Next == done = 0 /\ done' = 1 /\ UNCHANGED <<d1, d2, u, p>>
\* both sides get the same key
Same == Derive(d1, u, Pub(d2)) = Derive(d2, u, Pub(d1))
\* a UKM that is not a multiple of the order always gives a key, and different UKMs give different keys
Works == (Ukm(u) % Q # 0) => Derive(d1, u, Pub(d2)) # <<>>
Zero == Derive(d1, 0, Pub(d2)) = IF Adjust THEN Derive(d1, 1, Pub(d2)) ELSE <<>>
Apart == \A v \in 0..U : Ukm(u) % Q # Ukm(v) % Q => Derive(d1, u, Pub(d2)) # Derive(d1, v, Pub(d2))
\* every key that comes out lies in the prime order group and is not its neutral element
Confined == Derive(d1, u, p) # <<>> => /\ Derive(d1, u, p)[1] % H = 0
                                            /\ Derive(d1, u, p)[1] # 0
\* what comes out says nothing about the private key modulo the cofactor: a low order part of the peer's point is without effect
Hidden == \A t \in {k * Q : k \in 0..(H - 1)} : Derive(d1, u, (p + t) % N) = Derive(d1, u, p)
\* a point of low order is refused
LowOrder == (p % Q = 0) => Derive(d1, u, p) = <<>>
==============================================================================

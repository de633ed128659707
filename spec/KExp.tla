-------------------------------- MODULE KExp --------------------------------
(* Key export/import by MAC-then-encrypt (KExp15/KImp15) and the CryptoPro key
   wrap, with an adversary on the wire and a receiver who may hold other keys or
   another IV/UKM.  Parts are sequences of symbolic, pairwise different bits; an
   alteration is a function on the parts.  Importing succeeds exactly when the
   blob is the export of some key under the receiver's own keys and IV, which for
   an ideal MAC means: when nothing at all was altered.  TLC enumerates every
   alteration with its verdict.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Algs, Vals, Pairs
VARIABLES case
\* sizes in bytes: wrapped key, its check value, IV or UKM, number of 32 byte keys the receiver holds
Body == 32
Check(a) == CASE a = "m" -> 8 [] a = "k" -> 16 [] OTHER -> 4
IvLen(a) == CASE a = "m" -> 4 [] a = "k" -> 8 [] OTHER -> 8
Keys(a) == IF a = "cp" THEN 1 ELSE 2
Sym(t, n) == [i \in 1..n |-> <<t, i, 0>>]
Sent(a) == [alg |-> a, iv |-> Sym("iv", 8 * IvLen(a)), blob |-> Sym("b", 8 * (Body + Check(a))), key |-> [k \in 1..Keys(a) |-> Sym(IF k = 1 THEN "k1" ELSE "k2", 256)]]
Flip(s, b) == [s EXCEPT ![b + 1][3] = 1 - @]
Byte(s, i) == SubSeq(s, 8 * i + 1, 8 * i + 8)
SwapBytes(s, i, j) == [x \in 1..Len(s) |-> LET q == (x - 1) \div 8 r == (x - 1) % 8 IN
                        IF q = i THEN s[8 * j + r + 1] ELSE IF q = j THEN s[8 * i + r + 1] ELSE s[x]]
Rot(s, k) == [x \in 1..Len(s) |-> s[((x - 1 + 8 * k) % Len(s)) + 1]]
Zero(n) == [i \in 1..(8 * n) |-> <<"0", 0, 0>>]
NBlob(a) == Body + Check(a)
Alts(a) ==
    {<<"none", 0, 0>>}
    \cup {<<"blob", b, 0>> : b \in 0..(8 * NBlob(a) - 1)}
    \cup {<<"iv", b, 0>> : b \in 0..(8 * IvLen(a) - 1)}
    \cup {<<"key", k, b>> : k \in 1..Keys(a), b \in 0..255}
    \cup {<<"pair", b, 8 * Body + c>> : b \in {x \in 0..(8 * Body - 1) : x % Pairs = 0}, c \in {x \in 0..(8 * Check(a) - 1) : x % Pairs = 1}}
    \cup {<<"bytes", i, j>> : i \in {0, 1, 7, 8, 15, 31}, j \in {8, 9, 16, 24, 32, NBlob(a) - 1}}
    \cup {<<"rot", k, 0>> : k \in 1..(NBlob(a) - 1)}
    \cup {<<"zero", n, 0>> : n \in {1, 4, 8, Check(a), Body, NBlob(a)}}
    \cup (IF a = "cp" THEN {} ELSE
          {<<"short", n, 0>> : n \in 1..NBlob(a)} \cup {<<"long", n, 0>> : n \in {1, 2, 7, 8, 9, 16, 100}}
          \cup {<<"swapkeys", 0, 0>>, <<"samekey", 1, 0>>, <<"samekey", 2, 0>>, <<"other", 0, 0>>})
Ok(a, x) == x[1] = "bytes" => x[2] < x[3]
Apply(m, x) ==
  CASE x[1] = "none" -> m
    [] x[1] = "blob" -> [m EXCEPT !.blob = Flip(@, x[2])]
    [] x[1] = "iv" -> [m EXCEPT !.iv = Flip(@, x[2])]
    [] x[1] = "key" -> [m EXCEPT !.key[x[2]] = Flip(@, x[3])]
    [] x[1] = "pair" -> [m EXCEPT !.blob = Flip(Flip(@, x[2]), x[3])]
    [] x[1] = "bytes" -> [m EXCEPT !.blob = SwapBytes(@, x[2], x[3])]
    [] x[1] = "rot" -> [m EXCEPT !.blob = Rot(@, x[2])]
    [] x[1] = "zero" -> [m EXCEPT !.blob = SubSeq(@, 1, 8 * (NBlob(m.alg) - x[2])) \o Zero(x[2])]
    [] x[1] = "short" -> [m EXCEPT !.blob = SubSeq(@, 1, 8 * (NBlob(m.alg) - x[2]))]
    [] x[1] = "long" -> [m EXCEPT !.blob = @ \o Zero(x[2])]
    [] x[1] = "swapkeys" -> [m EXCEPT !.key = <<m.key[2], m.key[1]>>]
    [] x[1] = "samekey" -> [m EXCEPT !.key = <<m.key[x[2]], m.key[x[2]]>>]
    [] OTHER -> [m EXCEPT !.alg = IF @ = "m" THEN "k" ELSE "m"]
Import(sent, m) == IF m.alg = sent.alg /\ Len(m.blob) = 8 * NBlob(m.alg) /\ m = sent THEN "key" ELSE "reject"
Init == \E a \in Algs, v \in Vals : case = <<a, v, <<>>>>
Next == /\ case[3] = <<>>
        /\ \E x \in Alts(case[1]) : Ok(case[1], x) /\ case' = <<case[1], case[2], x>>
Done == case[3] # <<>>
V == Import(Sent(case[1]), Apply(Sent(case[1]), case[3]))
Emit == Done => PrintT("@@" \o ToJson([alg |-> case[1], val |-> case[2], x |-> case[3], v |-> V]))
Only == Done => (V = "key" <=> case[3][1] = "none")
=============================================================================

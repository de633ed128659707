------------------------------ MODULE KdfTree ------------------------------
(* KDF_TREE_GOSTR3411_2012_256 written out as the bytes that go into each HMAC:
   [i]_R || label || 00 || seed || [8 n], and TLSTREE as three such steps with the
   sequence number masked level by level.  TLC enumerates the parameters and, for
   TLSTREE, sequence numbers at every bit position together with the masked
   values and the positions whose change must (or must not) change the key.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Labels, Seeds, Outs, Reps, Ivs
VARIABLES case
\* ---- big-endian bytes of a number: of given width, and shortest
RECURSIVE Fix(_, _)
Fix(v, w) == IF w = 0 THEN <<>> ELSE Append(Fix(v \div 256, w - 1), v % 256)
RECURSIVE Short(_)
Short(v) == IF v = 0 THEN <<>> ELSE Append(Short(v \div 256), v % 256)
\* whole blocks, whose numbers fit in the counter, whose bits are counted in four bytes
OutOk(n, r) == n > 0 /\ n % 32 = 0 /\ r \in 1..4 /\ (r = 1 => n \div 32 < 256) /\ (r = 2 => n \div 32 < 65536)
Kdf(n, r) == [i \in 1..(n \div 32) |-> [ctr |-> Fix(i, r), len |-> Short(8 * n)]]
\* ---- TLSTREE: how many low bits of the sequence number each level ignores
Ignore(a) == IF a = "m" THEN <<38, 25, 12>> ELSE <<32, 19, 6>>
Pow(k) == 2 ^ k
\* byte j (1 = most significant) of a number given as 8 bytes, with the lowest g bits cleared
Mask(q, g) == [j \in 1..8 |-> LET low == 8 * (8 - j) IN IF g >= low + 8 THEN 0 ELSE IF g <= low THEN q[j] ELSE (q[j] \div Pow(g - low)) * Pow(g - low)]
Tree(a, q) == [l \in 1..3 |-> Mask(q, Ignore(a)[l])]
BitSeq(k) == [j \in 1..8 |-> IF 8 - j = k \div 8 THEN Pow(k % 8) ELSE 0]
Below(k) == [j \in 1..8 |-> IF 8 - j < k \div 8 THEN 255 ELSE IF 8 - j = k \div 8 THEN Pow(k % 8) - 1 ELSE 0]
Above(k) == [j \in 1..8 |-> 255 - Below(k)[j]]
Mix(v) == [j \in 1..8 |-> (37 * j * j + 91 * v + 13 * j * v) % 256]
Put(q, k) == [q EXCEPT ![8 - (k \div 8)] = LET b == (@ \div Pow(k % 8)) % 2 IN IF b = 1 THEN @ - Pow(k % 8) ELSE @ + Pow(k % 8)]
SeqNos == {BitSeq(k) : k \in 0..63} \cup {Below(k) : k \in 0..63} \cup {Above(k) : k \in 0..63} \cup {Mix(v) : v \in Ivs}
Init == case = [k |-> "start"]
Next == /\ case.k = "start"
        /\ \/ \E l \in Labels, s \in Seeds, n \in Outs, r \in Reps :
              case' = [k |-> "kdf", label |-> l, seed |-> s, out |-> n, rep |-> r, ok |-> OutOk(n, r), steps |-> IF OutOk(n, r) THEN Kdf(n, r) ELSE <<>>]
           \* one block too many for a counter of two bytes
           \/ case' = [k |-> "kdf", label |-> 4, seed |-> 8, out |-> 32 * 65536, rep |-> 2, ok |-> OutOk(32 * 65536, 2), steps |-> <<>>]
           \/ \E a \in {"m", "k"}, q \in SeqNos : case' = [k |-> "tree", alg |-> a, seq |-> q, lv |-> Tree(a, q)]
           \/ \E a \in {"m", "k"}, v \in Ivs, b \in 0..63 :
              case' = [k |-> "flip", alg |-> a, seq |-> Mix(v), seq2 |-> Put(Mix(v), b), lv |-> Tree(a, Mix(v)), lv2 |-> Tree(a, Put(Mix(v), b)), bit |-> b,
                       same |-> Tree(a, Mix(v)) = Tree(a, Put(Mix(v), b))]
Emit == case.k # "start" => PrintT("@@" \o ToJson(case))
\* 4096 records share a Magma key and 64 a Kuznyechik key; every higher bit counts, at some level only the top ones
Leaf == case.k = "flip" => (case.same <=> case.bit < Ignore(case.alg)[3])
=============================================================================

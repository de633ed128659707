-------------------------------- MODULE Modes --------------------------------
(* Meaning of the GOST cipher modes, as symbolic terms.

   A message is a sequence of input bytes numbered from 0.  Output byte i of a
   message depends only on (key, iv, input bytes, i): it does not depend on how
   the message was cut into calls, nor on anything an earlier message did.

   B  block size, S  section size in bytes (0: no key meshing).  Terms:

     <<"E", k, e, x>>     block x encrypted under the e-th meshed key of key k
     <<"iv", v>>          initial register made from IV v
     <<"ctr", v, n>>      CTR register: IV v followed by counter n
     <<"cb", c>>          ciphertext block c of this message
     <<"step", x>>        CNT register advance
   e = number of key meshings so far: K(0) = key, K(e+1) = mesh(K(e)).
   A keystream byte is [blk |-> term, off |-> offset in that block].           *)
EXTENDS Naturals, Sequences

Min(a, b) == IF a < b THEN a ELSE b

Epoch(S, i) == IF S = 0 THEN 0 ELSE i \div S
\* block c (counted from 0) is the first one of a section other than the first
SectionStart(B, S, c) == S # 0 /\ c > 0 /\ (c * B) % S = 0

RECURSIVE CntReg(_, _, _, _, _), OfbReg(_, _, _, _, _)
(* register that is encrypted to give gamma block c *)
CntReg(k, v, B, S, c) ==
   IF c = 0 THEN <<"step", <<"E", k, 0, <<"iv", v>>>>>>
   ELSE LET p == CntReg(k, v, B, S, c - 1)
            e == Epoch(S, c * B)
        IN <<"step", IF SectionStart(B, S, c) THEN <<"E", k, e, p>> ELSE p>>
OfbReg(k, v, B, S, c) ==
   IF c = 0 THEN <<"iv", v>>
   ELSE LET p == OfbReg(k, v, B, S, c - 1) IN <<"E", k, Epoch(S, (c - 1) * B), p>>
CfbReg(k, v, B, S, c) ==
   IF c = 0 THEN <<"iv", v>>
   ELSE IF SectionStart(B, S, c) THEN <<"E", k, Epoch(S, c * B), <<"cb", c - 1>>>>
   ELSE <<"cb", c - 1>>

Reg(mode, k, v, B, S, c) ==
   CASE mode = "ctr" -> <<"ctr", v, c>>
     [] mode = "cnt" -> CntReg(k, v, B, S, c)
     [] mode = "ofb" -> OfbReg(k, v, B, S, c)
     [] mode = "cfb" -> CfbReg(k, v, B, S, c)

(* the keystream byte that output byte i is the input byte XORed with *)
KsByte(mode, k, v, B, S, i) ==
   [blk |-> <<"E", k, Epoch(S, i), Reg(mode, k, v, B, S, i \div B)>>, off |-> i % B]

=============================================================================

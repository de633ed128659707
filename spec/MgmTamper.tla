----------------------------- MODULE MgmTamper -----------------------------
(* What an adversary can do to a sealed message <<nonce, A, C, T>> on its way, and
   what opening must say.  Messages are sequences of symbolic, pairwise different
   bytes; an alteration is a function on the four parts; opening succeeds exactly
   when nothing changed.  TLC enumerates every alteration for every pair of sizes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS B, ASizes, MSizes, Cuts
VARIABLES case
Bits(n) == 0..(8 * n - 1)
Sym(t, n) == [i \in 1..n |-> <<t, i>>]
Sent(sa, sm) == [n |-> Sym("n", B), a |-> Sym("a", sa), c |-> Sym("c", sm), t |-> Sym("t", B), k |-> 1]
Flip(s, b) == [s EXCEPT ![b \div 8 + 1] = <<"flip", @, b % 8>>]
Zero == <<"zero">>
Drop(s, k) == SubSeq(s, 1, Len(s) - k)
Ext(s, k) == s \o [i \in 1..k |-> Zero]
SwapBlk(s, i, j) == [x \in 1..Len(s) |->
    LET b == (x - 1) \div B IN IF b = i THEN s[j * B + ((x - 1) % B) + 1] ELSE IF b = j THEN s[i * B + ((x - 1) % B) + 1] ELSE s[x]]
\* alterations: kind, and up to two positions
Alts(sa, sm) ==
    {<<"none", 0, 0>>}
    \cup {<<"nonce", b, 0>> : b \in Bits(B) \ {0}}      \* bit 0 (the top one) is not part of the nonce
    \cup {<<"tag", b, 0>> : b \in Bits(B)}
    \cup {<<"aad", b, 0>> : b \in Bits(sa)}
    \cup {<<"ct", b, 0>> : b \in Bits(sm)}
    \cup {<<"key", b, 0>> : b \in Bits(32)}
    \cup {<<"adrop", k, 0>> : k \in 1..sa} \cup {<<"cdrop", k, 0>> : k \in 1..sm}
    \cup {<<"aext", k, 0>> : k \in 1..(B + 1)} \cup {<<"cext", k, 0>> : k \in 1..(B + 1)}
    \cup {<<"a2c", k, 0>> : k \in 1..sa} \cup {<<"c2a", k, 0>> : k \in 1..sm}
    \cup {<<"aswap", i, j>> : i, j \in 0..(sa \div B)} \cup {<<"cswap", i, j>> : i, j \in 0..(sm \div B)}
    \cup {<<"tagzero", 0, 0>>, <<"tagone", 0, 0>>} \cup {<<"taghalf", k, 0>> : k \in 1..(B - 1)}
    \cup {<<"pair", b, d>> : b \in {x \in Bits(sm) : x % 5 = 0}, d \in {B * 8, B * 4, 1}}    \* two bits of the text at a distance
Ok(sa, sm, x) ==
    /\ x[1] \in {"aswap", "cswap"} => x[2] < x[3] /\ (x[3] + 1) * B <= (IF x[1] = "aswap" THEN sa ELSE sm)
    /\ x[1] = "pair" => x[2] + x[3] < 8 * sm
Apply(m, x) ==
  CASE x[1] = "none" -> m
    [] x[1] = "nonce" -> [m EXCEPT !.n = Flip(@, x[2])]
    [] x[1] = "tag" -> [m EXCEPT !.t = Flip(@, x[2])]
    [] x[1] = "aad" -> [m EXCEPT !.a = Flip(@, x[2])]
    [] x[1] = "ct" -> [m EXCEPT !.c = Flip(@, x[2])]
    [] x[1] = "key" -> [m EXCEPT !.k = 100 + x[2]]
    [] x[1] = "adrop" -> [m EXCEPT !.a = Drop(@, x[2])]
    [] x[1] = "cdrop" -> [m EXCEPT !.c = Drop(@, x[2])]
    [] x[1] = "aext" -> [m EXCEPT !.a = Ext(@, x[2])]
    [] x[1] = "cext" -> [m EXCEPT !.c = Ext(@, x[2])]
    [] x[1] = "a2c" -> [m EXCEPT !.a = Drop(@, x[2]), !.c = SubSeq(m.a, Len(m.a) - x[2] + 1, Len(m.a)) \o @]
    [] x[1] = "c2a" -> [m EXCEPT !.a = @ \o SubSeq(m.c, 1, x[2]), !.c = SubSeq(@, x[2] + 1, Len(@))]
    [] x[1] = "aswap" -> [m EXCEPT !.a = SwapBlk(@, x[2], x[3])]
    [] x[1] = "cswap" -> [m EXCEPT !.c = SwapBlk(@, x[2], x[3])]
    [] x[1] = "tagzero" -> [m EXCEPT !.t = [i \in 1..B |-> Zero]]
    [] x[1] = "tagone" -> [m EXCEPT !.t = [i \in 1..B |-> <<"one">>]]
    [] x[1] = "taghalf" -> [m EXCEPT !.t = SubSeq(@, 1, x[2]) \o [i \in 1..(B - x[2]) |-> Zero]]
    [] OTHER -> [m EXCEPT !.c = Flip(Flip(@, x[2]), x[2] + x[3])]
Verdict(m, r) == IF r = m THEN "open" ELSE "reject"
Init == \E sa \in ASizes, sm \in MSizes, k \in Cuts : sa + sm > 0 /\ case = <<sa, sm, k, <<>>>>
Next == /\ case[4] = <<>>
        /\ \E x \in Alts(case[1], case[2]) : Ok(case[1], case[2], x) /\ case' = <<case[1], case[2], case[3], x>>
Rcv == Apply(Sent(case[1], case[2]), case[4])
Emit == case[4] # <<>> => PrintT("@@" \o ToJson([b |-> B, sa |-> case[1], sm |-> case[2], cut |-> case[3], x |-> case[4],
            v |-> Verdict(Sent(case[1], case[2]), Rcv), la |-> Len(Rcv.a), lm |-> Len(Rcv.c)]))
\* only the untouched message opens
Only == case[4] # <<>> => (Verdict(Sent(case[1], case[2]), Rcv) = "open" <=> case[4][1] = "none")
=============================================================================

------------------------------ MODULE SignApi -------------------------------
(* Signing and verifying with GOST keys through EVP: raw digests (EVP_PKEY_sign/verify on
   contexts used repeatedly) and messages (EVP_DigestSign/Verify, cut anywhere, continued
   after a result), copies of both, generated keys, random sources that deliver chosen
   nonces or fail.  The verdict of every call is predicted: a signature is accepted by a
   context exactly if it is unaltered, was made with the same private number on the same
   curve - under whichever of its names and whichever kind of key - and for the same
   digest, taken as a little-endian number modulo the order with 0 standing for 1.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, NSlots, G01, G01dh, G256, G512, Focus, MaxMsg
VARIABLES fam, cls, slot, sigs, hist
vars == <<fam, cls, slot, sigs, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Fams == ({"g01"} \X G01) \cup ({"g01dh"} \X G01dh) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
\* names of one and the same curve
Curve(c) == CASE c \in {"A", "XA", "TCB"} -> "A" [] c \in {"B", "TCC"} -> "B" [] c \in {"C", "XB", "TCD"} -> "C" [] OTHER -> c
Size(f) == IF f[1] = "g512" THEN 64 ELSE 32
Hash(f) == CASE f[1] = "g512" -> 512 [] f[1] = "g256" -> 256 [] OTHER -> 94
Classes == {"r1", "r2", "one", "two", "minus", "lead"}
Gen(c) == c \notin Classes
Same(k, l) == Curve(k[2]) = Curve(l[2]) /\ k[3] = l[3]
NoKey == <<"", "", "">>
NoDig == [t |-> "none", i |-> 0, n |-> 0, a |-> 0, m |-> 0, k |-> NoKey]
None == [st |-> "none", key |-> NoKey, priv |-> 0, mid |-> 0, len |-> 0]
Init == fam = <<>> /\ cls = <<>> /\ slot = [s \in 1..NSlots |-> None] /\ sigs = <<>> /\ hist = <<>>
\* a history works with a few keys: one kind and curve, an alias of it, another; two numbers
Setup ==
  /\ fam = <<>>
  /\ \E f \in {Rnd(Fams)} : \E g \in {Rnd({x \in Fams : Curve(x[2]) = Curve(f[2])})}, h \in {Rnd(Fams)} : fam' = <<f, g, h>>
  /\ \E c \in {Rnd(Classes)}, e \in {Rnd(Classes)} : cls' = <<c, e>>
  /\ UNCHANGED <<slot, sigs, hist>>
\* every choice below is a function of a tuple of draws
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
Pick(q, x) == q[1 + (x % Len(q))]
AFam(x) == IF x % 10 < 6 THEN fam[1] ELSE IF x % 10 < 9 THEN fam[2] ELSE fam[3]
AKey(w) == \* mostly a key that something was signed with
  IF sigs # <<>> /\ w[1] % 4 # 0
  THEN LET g == Pick(sigs, w[2]) IN (IF w[3] % 3 = 0 /\ ~Gen(g.key[3]) THEN <<fam[2][1], fam[2][2], g.key[3]>> ELSE g.key)
  ELSE LET f == AFam(w[2]) IN <<f[1], f[2], IF w[3] % 4 = 0 THEN cls[2] ELSE cls[1]>>
Dig(t, i, n, a, m, k) == [t |-> t, i |-> i, n |-> n, a |-> a, m |-> m, k |-> k]
\* the number a digest stands for
Num(d) ==
  CASE d.t \in {"zero", "one", "q", "q1"} -> <<"one", 0, 0, 0, NoKey>>
    [] d.t \in {"v", "vq"} -> <<"v", d.i, 0, 0, NoKey>>
    [] d.t = "hash" -> <<"hash", d.i, d.a, d.m, NoKey>>
    [] d.t \in {"s0", "fit"} -> <<d.t, d.i, 0, 0, d.k>>
    [] OTHER -> <<d.t, d.i, d.n, 0, NoKey>>
Legal(d) == d.n \in {32, 64}
ADig(k, w) ==
  LET i == 1 + (w[1] % 12) j == 1 + (w[2] % 3) n == Pick(<<32, 64>>, w[3]) nn == IF k[1] = "g512" THEN 64 ELSE n IN
  CASE i <= 2 -> Dig("rand", j, n, 0, 0, NoKey)
    [] i = 3 -> Dig("zero", 0, n, 0, 0, NoKey)
    [] i = 4 -> Dig("one", 0, n, 0, 0, NoKey)
    [] i = 5 -> Dig("q", 0, nn, 0, 0, NoKey)
    [] i = 6 -> Dig("q1", 0, nn, 0, 0, NoKey)
    [] i = 7 -> Dig("v", j, n, 0, 0, NoKey)
    [] i = 8 -> Dig("vq", j, 64, 0, 0, NoKey)
    [] i = 9 -> Dig("ff", 0, n, 0, 0, NoKey)
    [] i = 10 -> LET a == Pick(<<94, 256, 512>>, w[3]) IN Dig("hash", j, IF a = 512 THEN 64 ELSE 32, a, Pick(<<0, 5, 32, 64>>, w[4]), NoKey)
    [] i = 11 -> IF Gen(k[3]) THEN Dig("rand", j, 32, 0, 0, NoKey) ELSE Dig("s0", j, IF k[1] = "g512" THEN 64 ELSE 32, 0, 0, k)
    [] OTHER -> Dig("rand", j, Pick(<<0, 1, 20, 31, 33, 48, 63, 65, 128>>, w[3]), 0, 0, NoKey)
\* other writings of the same number
Alike(d, k, w) ==
  LET n == Pick(<<32, 64>>, w[2]) nn == IF k[1] = "g512" THEN 64 ELSE n i == 1 + (w[3] % 4) IN
  CASE d.t \in {"zero", "one", "q", "q1"} -> (IF i = 1 THEN [d EXCEPT !.t = "zero", !.n = n] ELSE IF i = 2 THEN [d EXCEPT !.t = "one", !.n = n]
                                              ELSE IF i = 3 THEN [d EXCEPT !.t = "q", !.n = nn] ELSE [d EXCEPT !.t = "q1", !.n = nn])
    [] d.t \in {"v", "vq"} -> IF i <= 2 THEN [d EXCEPT !.t = "v", !.n = n] ELSE [d EXCEPT !.t = "vq", !.n = 64]
    [] OTHER -> d
Script(d, w) == IF d.t = "s0" THEN <<"s0">> ELSE
  LET i == 1 + (w[5] % 12) IN CASE i = 1 -> <<"zero">> [] i = 2 -> <<"zero", "one">> [] i = 3 -> <<"one">> [] i = 4 -> <<"minus">> [] i = 5 -> <<"q">>
                           [] i = 6 -> <<"fail">> [] i = 7 -> <<"big">> [] i = 8 -> <<"small">> [] OTHER -> <<>>
\* szero, sq: numbers that satisfy the equation, s being 0 or the order itself
Modes == {"rand", "leadr", "sone", "sminus", "slead", "dbl", "kone", "kminus", "ktwo", "szero", "sq"}
\* with this many copies of a context at most
S == Rnd(1..NSlots)
On(s) == slot[s].st # "none"
Room == Len(sigs) < 12
Open(s) ==
  /\ \E w \in W : \E k \in {AKey(w)}, pub \in {w[4] % 6 = 0}, v \in {w[5] % 2 = 0} :
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = IF v THEN "verify" ELSE "sign", !.key = k, !.priv = B2N(~pub)]]
     /\ Log([op |-> "open", s |-> s, v |-> B2N(v), key |-> k, priv |-> B2N(~pub)])
  /\ UNCHANGED <<fam, cls, sigs>>
Sign(s) ==
  /\ slot[s].st = "sign" /\ Room
  /\ \E w \in W, room \in {Pick(<<"exact", "exact", "exact", "exact", "more", "less">>, Rnd(0..5))} : \E d \in {ADig(slot[s].key, w)} : \E sc \in {Script(d, w)} :
     LET ok == slot[s].priv = 1 /\ Legal(d) /\ room # "less" /\ sc # <<"fail">> IN
     /\ sigs' = IF ok THEN Append(sigs, [key |-> slot[s].key, d |-> d, out |-> FALSE]) ELSE sigs
     /\ Log([op |-> "sign", s |-> s, key |-> slot[s].key, d |-> d, rnd |-> sc, room |-> room, ok |-> B2N(ok)])
  /\ UNCHANGED <<fam, cls, slot>>
Ask(s) == /\ slot[s].st = "sign" /\ Coin(3) /\ UNCHANGED <<fam, cls, slot, sigs>>
          /\ Log([op |-> "ask", s |-> s, n |-> IF slot[s].key[1] = "g512" THEN 128 ELSE 64])
\* a signature from elsewhere, with the extreme numbers that are legal
Other ==
  /\ Room
  /\ \E w \in W, m \in {Rnd(Modes)} : \E k \in {AKey(w)}, h \in {1 + (w[4] % 3)} :
     LET free == m \in {"sone", "sminus", "slead", "dbl", "szero", "sq"}
         d == IF free THEN Dig("fit", Len(sigs) + 1, IF k[1] = "g512" THEN 64 ELSE 32, 0, 0, k)
              ELSE Dig("rand", h, Pick(<<32, 64>>, w[5]), 0, 0, NoKey)
     IN /\ ~Gen(k[3])
        /\ sigs' = Append(sigs, [key |-> k, d |-> d, out |-> m \in {"szero", "sq"}])
        /\ Log([op |-> "other", key |-> k, mode |-> m, d |-> d])
  /\ UNCHANGED <<fam, cls, slot>>
Alters == {"flip", "flip", "flip", "swap", "r+q", "s+q", "r=0", "s=0", "zero", "r=q", "s=q", "-s", "-r", "-r-s", "cut1", "cuthalf", "cuthead", "empty", "more", "wide", "prefix", "twice", "inf", "short", "rev", "ones", "other"}
AlterOf(w, a) == IF w[5] % 2 = 0 THEN "none" ELSE a
Accept(g, k, d, al) == al = "none" /\ ~g.out /\ Same(g.key, k) /\ Num(g.d) = Num(d) /\ Legal(d)
Pickset(X, x) == LET q == SetToSeq(X) IN Pick(q, x)
Verify(s) ==
  /\ slot[s].st = "verify" /\ sigs # <<>>
  /\ \E w \in W, w2 \in W, a \in {Rnd(Alters)}, p \in {Rnd(0..99999)} :
     LET own == {i \in 1..Len(sigs) : Same(sigs[i].key, slot[s].key)}
         g == IF w[1] % 6 # 0 /\ own # {} THEN Pickset(own, w[2]) ELSE 1 + (w[2] % Len(sigs))
         d == IF w[3] % 8 = 0 THEN ADig(slot[s].key, w2) ELSE IF w[3] % 8 <= 3 THEN Alike(sigs[g].d, slot[s].key, w2) ELSE sigs[g].d
         al == AlterOf(w, a)
     IN Log([op |-> "verify", s |-> s, key |-> slot[s].key, g |-> g, d |-> d, alter |-> al, p |-> p, ok |-> B2N(Accept(sigs[g], slot[s].key, d, al))])
  /\ UNCHANGED <<fam, cls, slot, sigs>>
\* messages
DOpen(s) ==
  /\ \E w \in W : \E k \in {AKey(w)}, pub \in {w[4] % 6 = 0}, v \in {w[5] % 2 = 0}, md \in {Pick(<<"right", "right", "null", "null", "wrong">>, Rnd(0..4))}, j \in {Rnd(1..2)} :
     /\ slot' = [slot EXCEPT ![s] = IF md = "wrong" THEN None ELSE [st |-> IF v THEN "dverify" ELSE "dsign", key |-> k, priv |-> B2N(~pub), mid |-> j, len |-> 0]]
     /\ Log([op |-> "dopen", s |-> s, v |-> B2N(v), key |-> k, priv |-> B2N(~pub), md |-> md, ok |-> B2N(md # "wrong")])
  /\ UNCHANGED <<fam, cls, sigs>>
Msg(s) == slot[s].st \in {"dsign", "dverify"}
Targets(s) == {sigs[i].d.m : i \in {x \in 1..Len(sigs) : sigs[x].d.t = "hash" /\ sigs[x].d.i = slot[s].mid /\ sigs[x].d.m > slot[s].len /\ Same(sigs[x].key, slot[s].key)}}
Feed(s) ==
  /\ Msg(s)
  /\ \E i \in {Rnd(1..5)}, w \in W : \E n \in {IF i <= 4 /\ Targets(s) # {} THEN Pickset(Targets(s), w[1]) - slot[s].len ELSE IF i = 5 THEN 1 + ((w[1] * 240 + w[2]) % MaxMsg) ELSE Pick(<<0, 1, 5, 27, 31, 32, 33, 59, 64, 100>>, w[3])} :
     /\ slot[s].len + n <= MaxMsg
     /\ slot' = [slot EXCEPT ![s].len = @ + n]
     /\ Log([op |-> "feed", s |-> s, mid |-> slot[s].mid, off |-> slot[s].len, n |-> n])
  /\ UNCHANGED <<fam, cls, sigs>>
HDig(s) == LET a == Hash(slot[s].key) IN Dig("hash", slot[s].mid, IF a = 512 THEN 64 ELSE 32, a, slot[s].len, NoKey)
Hits(s) == {i \in 1..Len(sigs) : Same(sigs[i].key, slot[s].key) /\ Num(sigs[i].d) = Num(HDig(s))}
DSign(s) ==
  /\ slot[s].st = "dsign" /\ Room
  /\ \E i \in {Rnd(1..6)} :
     LET sc == CASE i = 1 -> <<"zero">> [] i = 2 -> <<"fail">> [] OTHER -> <<>>
         ok == slot[s].priv = 1 /\ sc # <<"fail">> IN
     /\ sigs' = IF ok THEN Append(sigs, [key |-> slot[s].key, d |-> HDig(s), out |-> FALSE]) ELSE sigs
     /\ Log([op |-> "dsign", s |-> s, key |-> slot[s].key, d |-> HDig(s), rnd |-> sc, ok |-> B2N(ok)])
  /\ UNCHANGED <<fam, cls, slot>>
DVerify(s) ==
  /\ slot[s].st = "dverify" /\ sigs # <<>>
  /\ \E w \in W, a \in {Rnd(Alters)}, p \in {Rnd(0..99999)} :
     LET own == Hits(s)
         g == IF w[1] % 5 # 0 /\ own # {} THEN Pickset(own, w[2]) ELSE 1 + (w[2] % Len(sigs))
         al == AlterOf(w, a)
     IN Log([op |-> "dverify", s |-> s, key |-> slot[s].key, g |-> g, d |-> HDig(s), alter |-> al, p |-> p, ok |-> B2N(Accept(sigs[g], slot[s].key, HDig(s), al))])
  /\ UNCHANGED <<fam, cls, slot, sigs>>
Dup(s) ==
  /\ On(s) /\ \E t \in {Rnd(1..NSlots)} : t # s /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "dup", s |-> s, t |-> t, msg |-> B2N(Msg(s))])
  /\ UNCHANGED <<fam, cls, sigs>>
\* a new key; what the random source delivers must not show
Keygen ==
  /\ \E w \in W :
     LET f == AFam(w[1])
         sc == Pick(<<<<"zero">>, <<"fail">>, <<"one">>, <<"minus">>, <<"q", "zero">>, <<>>, <<>>, <<>>>>, w[2])
         k == <<f[1], f[2], "g" \o ToString(Len(hist))>> IN
     \* the number is known under this name
     /\ Log([op |-> "gen", key |-> k, rnd |-> sc, ok |-> B2N(sc # <<"fail">>)])
     /\ slot' = IF sc = <<"fail">> THEN slot ELSE [slot EXCEPT ![1] = [None EXCEPT !.st = "sign", !.key = k, !.priv = 1]]
  /\ UNCHANGED <<fam, cls, sigs>>
Want(a) == Focus = a
Next == \/ Setup
        \/ /\ fam # <<>>
           /\ \/ \E s \in {S} : (~On(s) \/ Coin(8)) /\ Open(s)
              \/ \E s \in {S} : (~On(s) \/ Coin(8)) /\ DOpen(s)
              \/ \E s \in {S} : Sign(s)
              \/ \E s \in {S} : Want("sign") /\ Sign(s)
              \/ \E s \in {S} : Ask(s)
              \/ \E s \in {S} : Verify(s)
              \/ \E s \in {S} : Want("verify") /\ Verify(s)
              \/ \E s \in {S} : Want("verify") /\ Verify(s)
              \/ Want("verify") /\ Coin(3) /\ Other
              \/ Want("sign") /\ Coin(4) /\ Keygen
              \/ \E s \in {S} : Feed(s)
              \/ \E s \in {S} : Coin(2) /\ Feed(s)
              \/ \E s \in {S} : Msg(s) /\ Targets(s) # {} /\ Feed(s)
              \/ \E s \in {S} : DSign(s)
              \/ \E s \in {S} : DVerify(s)
              \/ \E s \in {S} : slot[s].st = "dverify" /\ Hits(s) # {} /\ DVerify(s)
              \/ \E s \in {S} : Want("verify") /\ slot[s].st = "dverify" /\ Hits(s) # {} /\ DVerify(s)
              \/ \E s \in {S} : Coin(3) /\ Dup(s)
              \/ (Len(hist) < Depth /\ UNCHANGED vars)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* accepted: made with that number on that curve for that digest
Only == \A i \in 1..Len(hist) : (hist[i].op \in {"verify", "dverify"} /\ hist[i].ok = 1) =>
          /\ Same(sigs[hist[i].g].key, hist[i].key) /\ hist[i].alter = "none" /\ ~sigs[hist[i].g].out
          /\ Num(sigs[hist[i].g].d) = Num(hist[i].d)
=============================================================================

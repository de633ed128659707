------------------------------ MODULE TransApi ------------------------------
(* Key transport to a GOST public key (EVP_PKEY_encrypt/decrypt), in the CryptoPro
   form ("cp") and the 2018 forms with Magma and Kuznyechik ("m", "k"): senders with
   ephemeral or own keys, preset or random UKMs, messages altered, cut, recombined and
   delivered to any context, contexts reused and copied.  A message is a record of
   symbolic fields; a receiver gets the session key of the message a body comes from
   exactly when nothing that matters differs from that message.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, G01, G01dh, G256, G512, Cof, Fmts, Ops
VARIABLES slot, fam, msgs, org, hist
vars == <<slot, fam, msgs, org, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Fams == ({"g01"} \X G01) \cup ({"g01dh"} \X G01dh) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
NoKey == <<"", "", "", 0>>
Key(f, c) == <<f[1], f[2], c, 0>>
None == [st |-> "none", key |-> NoKey, priv |-> 0, peer |-> NoKey, peerpriv |-> 0, fmt |-> "cp", ukm |-> <<0, 0>>]
Init == /\ slot = [s \in 1..NSlots |-> None] /\ msgs = <<>> /\ org = <<>> /\ hist = <<>>
        /\ fam \in (Fams \X Fams)
        \* the second family differs, or there is none
Honest == {"r1", "r1", "r2", "lead"}
Fmt(c) == CASE c \in {"m", "macp", "maco"} -> "m" [] c \in {"k", "kacp", "kaco"} -> "k" [] c \in {"unset", "g89"} -> "cp" [] OTHER -> "bad"
Ciphers == {c \in {"unset", "g89", "m", "macp", "maco", "k", "kacp", "kaco", "magma-cbc"} : Fmt(c) \in Fmts \cup {"bad"}}
\* a context of one message: which format, which key; "enc" contexts often hold the public key only
Open(s) ==
  /\ \E kind \in {Rnd({"enc", "dec", "dec"})}, c \in {Rnd({"r1", "r1", "r1", "r2", "lead"})}, cs \in {Rnd(Ciphers)}, odd \in {Coin(3)} :
     \* often the recipient of the last message, ready for it
     \E aim \in {kind = "dec" /\ org # <<>> /\ Coin(2)} :
     \E pub \in {IF kind = "enc" THEN Coin(2) ELSE Coin(12)}, ci \in {IF aim THEN Rnd({x \in Ciphers : Fmt(x) = org[Len(org)].fmt}) ELSE IF Fmt(cs) = "bad" /\ ~odd THEN Rnd({x \in Ciphers : Fmt(x) \in Fmts}) ELSE cs} :
     \E k \in {IF aim THEN org[Len(org)].r ELSE Key(fam[1], c)} :
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = kind, !.key = k, !.priv = B2N(~pub), !.fmt = Fmt(ci)]]
     /\ Log([op |-> "open", s |-> s, kind |-> kind, key |-> k, priv |-> B2N(~pub), cipher |-> ci])
  /\ UNCHANGED <<msgs, org>>
SetUkm(s) ==
  /\ slot[s].st = "enc" \/ Coin(3)
  /\ \E n \in {IF slot[s].fmt = "cp" THEN Rnd({8, 8, 32}) ELSE Rnd({8, 16, 32, 32, 32, 32})} :
     \* a receiver may also be told the UKM of an actual message
     \E j \in {IF slot[s].st = "dec" /\ Coin(2) /\ org # <<>> /\ org[Len(org)].ukm[1] = 32 THEN Len(org) ELSE 0} :
     LET u == IF j = 0 THEN <<n, Len(hist) + 1>> ELSE org[j].ukm IN
     /\ slot' = [slot EXCEPT ![s].ukm = u]
     /\ Log([op |-> "ukm", s |-> s, n |-> u[1], id |-> u[2]])
  /\ UNCHANGED <<msgs, org>>
SetPeer(s) ==
  /\ \E other \in {Coin(6)}, pub \in {IF slot[s].st = "enc" THEN Coin(6) ELSE Coin(2)} : \E f \in {IF other THEN fam[2] ELSE fam[1]} :
     \E c \in {IF slot[s].st = "dec" /\ org # <<>> /\ org[Len(org)].snd[3] # "eph" /\ Coin(2) THEN org[Len(org)].snd[3] ELSE Rnd({"r1", "r2", "r2", "lead"})} :
     LET ok == f[1] = slot[s].key[1] /\ f[2] = slot[s].key[2] IN
     /\ slot' = IF ok THEN [slot EXCEPT ![s].peer = Key(f, c), ![s].peerpriv = B2N(~pub)] ELSE slot
     /\ Log([op |-> "peer", s |-> s, key |-> Key(f, c), priv |-> B2N(~pub), ok |-> B2N(ok)])
  /\ UNCHANGED <<msgs, org>>
\* ----------------------------------------------------------------- sending
CanSend(o) == /\ o.fmt # "bad"
              /\ o.peer = NoKey \/ o.peerpriv = 1
              /\ o.fmt = "cp" \/ (o.ukm[1] \in {0, 32} /\ o.key[1] \in {"g256", "g512"})
\* the UKM bytes that travel
Carried(o, id) == IF o.ukm[1] # 0 THEN o.ukm ELSE <<IF o.fmt = "cp" THEN 8 ELSE 32, 0 - id>>
Msg(id, o, snd, static) == [fmt |-> o.fmt, body |-> <<id, -1>>, chk |-> <<id, -1>>, oid |-> id, eph |-> IF o.fmt = "cp" /\ static THEN NoKey ELSE snd,
                            ukm |-> <<Carried(o, id), -1>>, bad |-> 0]
Enc(s) ==
  /\ slot[s].st = "enc"
  /\ \E n \in {Rnd({32, 32, 32, 32, 32, 32, 32, 0, 16, 31, 33, 64})}, room \in {Rnd({"exact", "exact", "more", "less"})}, by \in {IF Coin(3) THEN "oracle" ELSE "code"} :
     LET o == slot[s]
         good == CanSend(o) /\ n = 32
         id == Len(org) + 1
         snd == IF o.peer # NoKey THEN o.peer ELSE <<o.key[1], o.key[2], "eph", id>>
         ok == good /\ room # "less"
         b == IF ok THEN by ELSE "code"
     IN /\ IF ok THEN /\ org' = Append(org, [fmt |-> o.fmt, r |-> o.key, snd |-> snd, ukm |-> Carried(o, id), sess |-> Len(hist) + 1])
                      /\ msgs' = Append(msgs, Msg(id, o, snd, o.peer # NoKey))
           ELSE UNCHANGED <<org, msgs>>
        /\ Log([op |-> "enc", s |-> s, n |-> n, room |-> room, by |-> b, good |-> B2N(good), ok |-> B2N(ok), fmt |-> o.fmt, id |-> IF ok THEN id ELSE 0,
                rcpt |-> o.key, snd |-> snd, static |-> B2N(o.peer # NoKey), ukm |-> Carried(o, id), preset |-> B2N(o.ukm[1] # 0)])
  /\ UNCHANGED slot
\* ------------------------------------------------------------- the adversary
Flip(t, b) == IF t[2] = -1 THEN <<t[1], b>> ELSE IF t[2] = b THEN <<t[1], -1>> ELSE <<t[1], -2>>
BodyBits(f) == CASE f = "cp" -> 256 [] f = "m" -> 320 [] OTHER -> 384
UkmBits(f) == IF f = "cp" THEN 64 ELSE 256
Put(m, what) == msgs' = Append(msgs, m) /\ Log(what)
Alter ==
  /\ msgs # <<>> /\ Len(msgs) < 12
  /\ \E j \in {IF Coin(2) THEN Len(msgs) ELSE Rnd(1..Len(msgs))}, k \in {Rnd({"bit", "bit", "len", "eph", "eph", "oid", "graft", "graft", "trunc"})}, x \in {Rnd(0..4095)} :
     LET m == msgs[j] cp == m.fmt = "cp" IN
     /\ m.bad = 0
     /\ CASE k = "bit" ->
               \E f \in {IF cp THEN Rnd({"body", "chk", "ukm", "eph"}) ELSE Rnd({"body", "ukm", "ukm", "eph"})} :
               LET b == x % (CASE f = "body" -> BodyBits(m.fmt) [] f = "chk" -> 32 [] f = "ukm" -> UkmBits(m.fmt) [] OTHER -> 512) IN
               \E w \in {[m EXCEPT !.body = IF f = "body" THEN Flip(@, b) ELSE @, !.chk = IF f = "chk" THEN Flip(@, b) ELSE @,
                                 !.ukm = IF f = "ukm" THEN Flip(@, b) ELSE @, !.bad = IF f = "eph" THEN 1 ELSE @]} :
               /\ f = "eph" => m.eph # NoKey
               /\ Put(w, [op |-> "alter", s |-> 0, from |-> j, k |-> "bit", f |-> f, x |-> b])
          [] k = "len" ->
               \E f \in {Rnd({"body", "chk", "ukm", "eph"})}, d \in {Rnd({-1, 1, 8, 100, -8, -1000})} :
               /\ f = "chk" => cp
               /\ f = "eph" => m.eph # NoKey
               \* the 2018 receiver who was told the UKM does not look at the one in the message
               /\ Put([m EXCEPT !.bad = IF f = "ukm" THEN 2 ELSE 1], [op |-> "alter", s |-> 0, from |-> j, k |-> "len", f |-> f, x |-> d])
          [] k = "eph" ->
               \E f \in {IF Coin(3) THEN fam[2] ELSE fam[1]} :
               \E c \in {IF f[2] \in Cof THEN Rnd({"r1", "r2", "lead", "low", "none"}) ELSE Rnd({"r1", "r2", "lead", "none"})} :
               /\ c = "none" => cp
               /\ Put([m EXCEPT !.eph = IF c = "none" THEN NoKey ELSE Key(f, c)], [op |-> "alter", s |-> 0, from |-> j, k |-> "eph", f |-> "", x |-> 0, key |-> IF c = "none" THEN NoKey ELSE Key(f, c)])
          [] k = "oid" ->
               /\ cp
               /\ \E c \in {Rnd({-1, -2, -3, -4})} : Put([m EXCEPT !.oid = c], [op |-> "alter", s |-> 0, from |-> j, k |-> "oid", f |-> "", x |-> c])
          [] k = "graft" ->
               \E i \in {Rnd(1..Len(msgs))}, f \in {IF cp THEN Rnd({"body", "chk", "ukm", "eph"}) ELSE Rnd({"body", "ukm", "eph"})} :
               /\ msgs[i].fmt = m.fmt /\ msgs[i].bad = 0 /\ i # j
               /\ f = "ukm" => (msgs[i].ukm[1][1] = m.ukm[1][1])
               /\ \E w \in {[m EXCEPT !.body = IF f = "body" THEN msgs[i].body ELSE @, !.chk = IF f = "chk" THEN msgs[i].chk ELSE @,
                                     !.ukm = IF f = "ukm" THEN msgs[i].ukm ELSE @, !.eph = IF f = "eph" THEN msgs[i].eph ELSE @]} :
                  Put(w, [op |-> "alter", s |-> 0, from |-> j, k |-> "graft", f |-> f, x |-> i])
          [] OTHER -> Put([m EXCEPT !.bad = 1], [op |-> "alter", s |-> 0, from |-> j, k |-> "trunc", f |-> "", x |-> x % 400])
  /\ UNCHANGED <<slot, org>>
\* --------------------------------------------------------------- receiving
IvLen(f) == IF f = "m" THEN 4 ELSE 8
Matters(b, alg, f) == b = -2 \/ b < 128 \/ (b < 192 /\ alg = "g256") \/ (b >= 192 /\ b < 192 + 8 * IvLen(f))
SameUkm(o, m, g) ==
  IF m.fmt = "cp" THEN m.bad = 0 /\ m.ukm = <<g.ukm, -1>>
  ELSE IF o.ukm[1] = 32 THEN o.ukm = g.ukm
  ELSE o.ukm[1] = 0 /\ m.bad = 0 /\ m.ukm[1] = g.ukm /\ (m.ukm[2] = -1 \/ (m.ukm[2] # -2 /\ ~Matters(m.ukm[2], o.key[1], m.fmt)))
\* two flips that do not matter: not decided by this specification, kept out
Vague(o, m) == m.fmt # "cp" /\ m.ukm[2] = -2 /\ o.ukm[1] = 0
Peer(o, m) == IF m.eph = NoKey THEN o.peer ELSE m.eph
Fits(o, k) == k[1] = o.key[1] /\ k[2] = o.key[2]
Verdict(o, m) ==
  IF o.priv = 0 \/ o.fmt # m.fmt \/ m.bad = 1 THEN 0
  ELSE LET p == Peer(o, m) g == org[m.body[1]] IN
    IF p = NoKey \/ ~Fits(o, p) THEN 0
    ELSE IF /\ m.body[2] = -1 /\ (m.fmt = "cp" => m.chk = <<m.body[1], -1>> /\ (m.oid = m.body[1] \/ (m.oid > 0)))
            /\ {o.key, p} = {g.r, g.snd} /\ SameUkm(o, m, g)
         THEN m.body[1] ELSE 0
Dec(s) ==
  /\ slot[s].st = "dec" /\ msgs # <<>>
  /\ \E i \in {LET good == {j \in DOMAIN msgs : Verdict(slot[s], msgs[j]) # 0} IN
              IF Coin(3) /\ good # {} THEN Rnd(good) ELSE IF Coin(2) THEN Len(msgs) ELSE Rnd(1..Len(msgs))}, room \in {Rnd({"exact", "exact", "exact", "more", "less"})} :
     LET m == msgs[i]
         o == slot[s]
         v == IF room = "less" THEN 0 ELSE Verdict(o, m)
         \* after a message with a key in it the context's peer is not specified until it is set again
         eats == room # "less" /\ o.fmt = "cp" /\ m.fmt = "cp" /\ m.eph # NoKey
     IN /\ ~Vague(o, m)
        /\ ~(m.eph = NoKey /\ o.peer[3] = "?")
        /\ m.bad # 0 \/ o.fmt # "bad"
        /\ slot' = IF eats THEN [slot EXCEPT ![s].peer = <<"", "", "?", 0>>] ELSE slot
        /\ Log([op |-> "dec", s |-> s, m |-> i, room |-> room, v |-> v, sess |-> IF v = 0 THEN 0 ELSE org[v].sess, fmt |-> o.fmt])
  /\ UNCHANGED <<msgs, org>>
AskDec(s) == slot[s].st = "dec" /\ Coin(3) /\ UNCHANGED <<slot, msgs, org>> /\ Log([op |-> "ask", s |-> s])
Dup(s) ==
  /\ "dup" \in Ops /\ slot[s].st # "none" /\ Coin(2)
  /\ \E t \in {Rnd(1..NSlots)} : t # s /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ Log([op |-> "dup", s |-> s, t |-> t])
  /\ UNCHANGED <<msgs, org>>
S == Rnd(1..NSlots)
Next == /\ UNCHANGED fam
        /\ \/ \E s \in {S} : (slot[s].st = "none" \/ Coin(6)) /\ Open(s)
           \/ \E s \in {S} : slot[s].st # "none" /\ slot[s].ukm[1] = 0 /\ Coin(2) /\ SetUkm(s)
           \/ \E s \in {S} : slot[s].st # "none" /\ (slot[s].peer \in {NoKey, <<"", "", "?", 0>>}) /\ Coin(2) /\ SetPeer(s)
           \/ \E s \in {S} : Enc(s)
           \/ \E s \in {S} : Enc(s)
           \/ \E s \in {S} : Dec(s)
           \/ \E s \in {S} : Dec(s)
           \/ \E s \in {S} : Dec(s)
           \/ Alter
           \/ Alter
           \/ \E s \in {S} : AskDec(s)
           \/ \E s \in {S} : Dup(s)
           \/ (Len(hist) < Depth /\ UNCHANGED <<slot, msgs, org, hist>>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* whoever gets a key out is the recipient or the sender of exactly that key
Only == \A s \in 1..NSlots : slot[s].st = "dec" => \A i \in DOMAIN msgs :
          LET v == Verdict(slot[s], msgs[i]) IN v # 0 => slot[s].key \in {org[v].r, org[v].snd} /\ slot[s].priv = 1
=============================================================================

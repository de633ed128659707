------------------------------ MODULE Envelope ------------------------------
(* Encrypted messages (CMS EnvelopedData and EncryptedData, S/MIME): sealed by the code
   under test or by the oracle, for several recipients, by key transport in the
   CryptoPro form ("cp") or the 2018 forms ("m", "k") or by key agreement ("am", "ak");
   altered in every part, recombined from parts of other messages, and opened by
   anyone, with or without naming the certificate, revealing or hiding failures.

   A message is a record of symbolic parts; Verdict says what opening it yields:
   ["text", k]: the decryption of what is there under content key k,
   "refuse": an error, "noise": no error, but nothing that depends on the content key. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, G01, G01dh, G256, G512, Ciphers, Sizes, Forms, MaxMsgs
VARIABLES fam, msgs, n, hist
vars == <<fam, msgs, n, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(k) == Rnd(1..k) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Fams == ({"g01"} \X G01) \cup ({"g01dh"} \X G01dh) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
Init == /\ fam \in (Fams \X Fams) /\ msgs = <<>> /\ n = 0 /\ hist = <<>>
Keys == {<<fam[1][1], fam[1][2], c>> : c \in {"r1", "r2"}} \cup {<<fam[2][1], fam[2][2], "r1">>}
\* the 2018 forms are defined for the 2012 keys
Can(k, f) == f = "cp" \/ k[1] \in {"g256", "g512"}
Auth == {"maco", "kaco"}
\* ---------------------------------------------------------------- sealing
Rek(k) == [to |-> k, names |-> k, dead |-> 0]
Agree(f) == f \in {"am", "ak"}
\* the key agreement form may hold a second recipient of the same curve
Rec(id, f, ks) == [form |-> f, cek |-> id, reks |-> [i \in DOMAIN ks |-> Rek(ks[i])]]
SameF(k, j) == k[1] = j[1] /\ k[2] = j[2]
Body(id, size) == IF size = 0 THEN <<0, {}>> ELSE <<id, {}>>
Msg(id, kind, c, size, recs) ==
  [kind |-> kind, cipher |-> c, cek |-> id, par |-> <<id, {}>>, body |-> Body(id, size), mac |-> IF c \in Auth THEN <<id, {}>> ELSE <<0, {}>>,
   size |-> size, recs |-> recs]
CipForm(c) == CASE c = "g89" -> "cp" [] c \in {"macp", "maco"} -> "m" [] OTHER -> "k"
\* how the code seals: "app" tells every recipient which cipher, as openssl cms does; "plain" CMS_encrypt; "p7" PKCS7_encrypt; "raw" EncryptedData
SealCode ==
  /\ n < MaxMsgs
  /\ \E how \in {Rnd({"app", "app", "app", "plain", "p7", "raw"})}, size \in {Rnd(Sizes)}, nrec \in {Rnd({1, 1, 2, 3})}, c0 \in {Rnd(Ciphers)} :
     LET f == IF how = "app" THEN CipForm(c0) ELSE "cp"
         ok == {k \in Keys : Can(k, f)}
         c == IF how \in {"p7", "raw"} /\ c0 \in Auth THEN "g89" ELSE c0
         id == n + 1 IN
     /\ f \in Forms \cup {"cp"}
     /\ \E k1 \in {Rnd(Keys)}, k2 \in {Rnd(Keys)}, k3 \in {Rnd(Keys)} :
        LET ks == IF how = "raw" THEN <<>> ELSE SubSeq(<<k1, k2, k3>>, 1, nrec)
            good == \A i \in DOMAIN ks : ks[i] \in ok IN
        /\ IF good THEN /\ n' = id
                        /\ msgs' = Append(msgs, Msg(id, IF how = "raw" THEN "raw" ELSE "env", c, size, [i \in DOMAIN ks |-> Rec(id, f, <<ks[i]>>)]))
           ELSE UNCHANGED <<n, msgs>>
        /\ Log([op |-> "seal", how |-> how, id |-> id, cipher |-> c, size |-> size, form |-> f, rcpts |-> ks, ok |-> B2N(good)])
SealOracle ==
  /\ n < MaxMsgs
  /\ \E c \in {Rnd(Ciphers)}, size \in {Rnd(Sizes)}, nrec \in {Rnd({1, 2, 2, 3, 4})},
        k \in {[i \in 1..4 |-> Rnd(Keys)]}, two \in {[i \in 1..4 |-> Coin(2)]}, other \in {[i \in 1..4 |-> Rnd(Keys)]}, fx \in {[i \in 1..4 |-> Rnd(Forms)]} :
     LET id == n + 1
         f == [i \in 1..4 |-> IF Can(k[i], fx[i]) THEN fx[i] ELSE "cp"]
         ks == [i \in 1..4 |-> IF Agree(f[i]) /\ two[i] /\ SameF(k[i], other[i]) THEN <<other[i], k[i]>> ELSE <<k[i]>>]
         recs == [i \in 1..nrec |-> Rec(id, f[i], ks[i])] IN
     /\ n' = id /\ msgs' = Append(msgs, Msg(id, "env", c, size, recs))
     /\ Log([op |-> "make", id |-> id, cipher |-> c, size |-> size, recs |-> [i \in DOMAIN recs |-> [form |-> recs[i].form, to |-> ks[i]]]])
\* ------------------------------------------------------------ the adversary
Sym(A, x) == IF x \in A THEN A \ {x} ELSE A \cup {x}
Flip(t, x) == <<t[1], Sym(t[2], x)>>
Put(m, r) == msgs' = Append(msgs, m) /\ n' = n + 1 /\ Log(r)
ParBits(c) == CASE c = "g89" -> 64 [] c \in {"macp", "maco"} -> 96 [] OTHER -> 128
MacBits(m) == IF msgs[m.mac[1]].cipher = "maco" THEN 64 ELSE 128
HasLen(t) == \E x \in t[2] : x < 0
Alt(j, k, f, x, y) == [op |-> "alter", id |-> n + 1, from |-> j, k |-> k, f |-> f, x |-> x, y |-> y]
AlterContent(j) ==
  LET m == msgs[j] IN
  \E k \in {Rnd({"body", "body", "cut", "par", "par", "mac", "mac", "sbox", "parlen", "maclen", "nomac", "cipher", "graft", "graft"})}, x \in {Rnd(0..9999)},
     i \in {Rnd(1..Len(msgs))} :
  LET b == IF m.size = 0 THEN 0 ELSE (x % (8 * m.size))
      o == msgs[i] IN
  CASE k = "body" -> /\ m.size > 0 /\ ~HasLen(m.body)
                     \* the last byte or any
                     /\ \E z \in {IF Coin(2) THEN (8 * m.size) - 1 - (x % 8) ELSE b} : Put([m EXCEPT !.body = Flip(@, z)], Alt(j, "body", "", z, 0))
    [] k = "cut" -> /\ ~HasLen(m.body)
                    /\ \E d \in {Rnd({-1, -8, -1000, 1, 8, 16})} : /\ d < 0 => m.size > 0
                                                                   /\ Put([m EXCEPT !.body = <<@[1], @[2] \cup {d - 2000 - n}>>, !.size = IF @ + d > 0 THEN @ + d ELSE 0], Alt(j, "cut", "", d, 0))
    [] k = "par" -> ~HasLen(m.par) /\ Put([m EXCEPT !.par = Flip(@, x % ParBits(m.cipher))], Alt(j, "par", "", x % ParBits(m.cipher), 0))
    [] k = "mac" -> m.mac[1] # 0 /\ ~HasLen(m.mac) /\ Put([m EXCEPT !.mac = Flip(@, x % MacBits(m))], Alt(j, "mac", "", x % MacBits(m), 0))
    [] k = "sbox" -> m.cipher = "g89" /\ ~HasLen(m.par) /\ Put([m EXCEPT !.par = <<@[1], @[2] \cup {1000}>>], Alt(j, "sbox", "", x % 4, 0))
    [] k = "parlen" -> ~HasLen(m.par) /\ Put([m EXCEPT !.par = <<@[1], @[2] \cup {-1}>>], Alt(j, "parlen", "", x % 6, 0))
    [] k = "maclen" -> m.mac[1] # 0 /\ ~HasLen(m.mac) /\ Put([m EXCEPT !.mac = <<@[1], @[2] \cup {-1}>>], Alt(j, "maclen", "", x % 6, 0))
    [] k = "nomac" -> m.mac[1] # 0 /\ Put([m EXCEPT !.mac = <<0, {}>>], Alt(j, "nomac", "", 0, 0))
    \* the same bytes under another name
    [] k = "cipher" -> \E c \in {Rnd({"macp", "maco", "kacp", "kaco", "g89"})} : /\ c # m.cipher /\ ~HasLen(m.par)
                                                                                /\ Put([m EXCEPT !.cipher = c, !.par = IF ParBits(c) = ParBits(m.cipher) THEN <<@[1], @[2]>> ELSE <<@[1], @[2] \cup {-2}>>],
                                                                                       Alt(j, "cipher", c, 0, 0))
    [] OTHER -> /\ i # j /\ o.cipher = m.cipher
                /\ \E f \in {Rnd({"body", "par", "mac"})} :
                   /\ f = "mac" => m.mac[1] # 0 /\ o.mac[1] # 0
                   /\ Put([m EXCEPT !.body = IF f = "body" THEN o.body ELSE @, !.size = IF f = "body" THEN o.size ELSE @,
                                    !.par = IF f = "par" THEN o.par ELSE @, !.mac = IF f = "mac" THEN o.mac ELSE @], Alt(j, "graft", f, i, 0))
SetRec(m, r, e) == [m EXCEPT !.recs[r] = e]
AlterRecips(j) ==
  LET m == msgs[j] R == Len(m.recs) IN
  /\ m.kind = "env" /\ R > 0
  /\ \E k \in {Rnd({"body", "ukm", "eph", "alg", "ukmlen", "noparam", "foreign", "sid", "swap", "drop", "graft", "graft"})}, r \in {Rnd(1..R)}, x \in {Rnd(0..9999)}, i \in {Rnd(1..Len(msgs))} :
     LET e == m.recs[r] q == 1 + (x % Len(e.reks)) o == msgs[i]
         \* an exported key cut short is one that is still to be completed: no error, and no key
         short == Agree(e.form) /\ x % 5 \in {1, 3}
         dead(all) == [e EXCEPT !.reks = [z \in DOMAIN @ |-> IF all \/ z = q THEN [@[z] EXCEPT !.dead = 1] ELSE @[z]]]
         alive == \A z \in DOMAIN e.reks : e.reks[z].dead = 0 IN
     CASE k = "body" -> e.reks[q].dead = 0 /\ Put(SetRec(m, r, IF short THEN [e EXCEPT !.reks[q].dead = 3] ELSE dead(FALSE)), Alt(j, "rbody", "", <<r, q>>, x))
       [] k \in {"ukm", "eph"} -> alive /\ Put(SetRec(m, r, dead(TRUE)), Alt(j, "r" \o k, "", <<r, q>>, x))
       [] k = "alg" -> alive /\ Put(SetRec(m, r, [e EXCEPT !.reks = [z \in DOMAIN @ |-> [@[z] EXCEPT !.dead = IF e.form = "am" /\ x % 2 = 1 THEN 3 ELSE 2]]]), Alt(j, "ralg", "", <<r, q>>, x))
       [] k = "ukmlen" -> alive /\ Put(SetRec(m, r, dead(TRUE)), Alt(j, "rukmlen", "", <<r, q>>, x % 7))
       [] k = "noparam" -> alive /\ Agree(e.form) /\ Put(SetRec(m, r, dead(TRUE)), Alt(j, "rnoparam", "", <<r, q>>, x % 7))
       \* an ephemeral key of another curve or algorithm
       [] k = "foreign" -> /\ alive /\ \E w \in {Rnd(Fams)} : /\ ~(w[1] = e.reks[1].to[1] /\ w[2] = e.reks[1].to[2])
                                                              /\ Put(SetRec(m, r, dead(TRUE)), Alt(j, "rforeign", w, <<r, q>>, x))
       [] k = "sid" -> \E w \in {Rnd(Keys)} : Put(SetRec(m, r, [e EXCEPT !.reks[q].names = w]), Alt(j, "rsid", w, <<r, q>>, 0))
       [] k = "swap" -> \E t \in {Rnd(1..R)} : t # r /\ Put([m EXCEPT !.recs = [z \in DOMAIN @ |-> IF z = r THEN @[t] ELSE IF z = t THEN @[r] ELSE @[z]]], Alt(j, "rswap", "", <<r, t>>, 0))
       [] k = "drop" -> R > 1 /\ Put([m EXCEPT !.recs = [z \in 1..(R - 1) |-> IF z < r THEN @[z] ELSE @[z + 1]]], Alt(j, "rdrop", "", <<r, q>>, 0))
       [] OTHER -> /\ o.kind = "env" /\ o.recs # <<>>
                   /\ \E t \in {Rnd(DOMAIN o.recs)} : Put(SetRec(m, r, o.recs[t]), Alt(j, "rgraft", "", <<r, t>>, i))
Alter == /\ msgs # <<>> /\ n < MaxMsgs
         /\ \E j \in {IF Coin(2) THEN Len(msgs) ELSE Rnd(1..Len(msgs))}, c \in {Coin(2)} : IF c THEN AlterContent(j) ELSE AlterRecips(j)
\* ---------------------------------------------------------------- opening
Opens(e, k, q) == e.reks[q].to = k /\ e.reks[q].dead = 0
\* the content key that recipient k finds: 0 none (error), -1 none, and it is not told
RECURSIVE Named(_, _, _)
Named(m, k, hide) ==      \* by certificate: the first entry that names it decides
  IF m.recs = <<>> THEN 0
  ELSE LET e == m.recs[1]
           qs == {q \in DOMAIN e.reks : e.reks[q].names = k} IN
       IF qs = {} THEN Named([m EXCEPT !.recs = Tail(@)], k, hide)
       ELSE LET q == CHOOSE q \in qs : \A p \in qs : q <= p IN
            IF Opens(e, k, q) THEN e.cek ELSE IF Agree(e.form) /\ e.reks[q].dead # 3 THEN 0 ELSE IF hide THEN -1 ELSE 0
RECURSIVE Tried(_, _, _, _)
Tried(m, k, hide, got) == \* without a certificate every entry is tried, of an agreement the first one
  IF m.recs = <<>> THEN IF got # 0 THEN got ELSE IF hide THEN -1 ELSE 0
  ELSE LET e == m.recs[1]
           ok == Opens(e, k, 1) IN
       IF ok /\ (Agree(e.form) \/ ~hide) THEN e.cek
       ELSE IF Agree(e.form) /\ e.reks[1].dead = 3 THEN (IF hide THEN -1 ELSE 0)
       ELSE Tried([m EXCEPT !.recs = Tail(@)], k, hide, IF ok THEN e.cek ELSE got)
Cek(m, k, named, hide) == IF named THEN Named(m, k, hide) ELSE Tried(m, k, hide, 0)
ParamsOk(m) == ~HasLen(m.par)
Whole(m, c) == /\ m.mac = <<c, {}>> /\ m.par = <<c, {}>> /\ m.body = msgs[c].body
Verdict(m, c) ==
  IF c = 0 \/ ~ParamsOk(m) THEN <<"refuse", 0>>
  ELSE IF m.cipher \in Auth THEN (IF c > 0 /\ Whole(m, c) THEN <<"text", c>> ELSE <<"refuse", 0>>)
  ELSE IF c = -1 THEN <<"noise", 0>> ELSE <<"text", c>>
\* the authenticated content of message c is only ever whole under the cipher it was made with
Made(c) == msgs[c]
VerdictA(m, c) == IF c > 0 /\ m.cipher \in Auth /\ Made(c).cipher # m.cipher THEN <<"refuse", 0>> ELSE Verdict(m, c)
\* an empty body under another content key has nothing in it to tell
Open ==
  /\ msgs # <<>>
  /\ \E j \in {IF Coin(2) THEN Len(msgs) ELSE Rnd(1..Len(msgs))}, k0 \in {Rnd(Keys)}, aim \in {Coin(2)}, named \in {Coin(2)}, hide \in {Coin(3)}, p7 \in {Coin(3)} :
     LET m == msgs[j] IN
     IF m.kind = "raw" THEN
       \E wrong \in {Coin(5)} :
       LET v == VerdictA(m, m.cek) IN
       /\ ~wrong \/ m.cipher \in Auth
       /\ Log([op |-> "open", m |-> j, api |-> "raw", key |-> <<"", "", "">>, named |-> 0, hide |-> 0, v |-> IF wrong THEN "refuse" ELSE v[1], cek |-> IF wrong THEN 0 ELSE m.cek,
               exact |-> B2N(~wrong /\ v[1] = "text" /\ m.body = Body(m.cek, m.size) /\ m.par = <<m.cek, {}>> /\ Made(m.cek).cipher = m.cipher)])
     ELSE
       \E w \in {Rnd(DOMAIN m.recs)} :
       LET k == IF aim THEN m.recs[w].reks[1].to ELSE k0
           \* PKCS#7 never looks at the algorithm identifier of a recipient's entry
           old == p7 /\ m.cipher \notin Auth /\ m.mac[1] = 0 /\ \A r \in DOMAIN m.recs : m.recs[r].form = "cp" /\ m.recs[r].reks[1].dead # 2
           c == Cek(m, k, named, hide \/ old)
           v == VerdictA(m, c) IN
       \* PKCS#7 does not say that nobody of that name is among the recipients in the same way
       /\ Log([op |-> "open", m |-> j, api |-> IF old THEN "p7" ELSE "cms", key |-> k, named |-> B2N(named), hide |-> B2N(hide \/ old), v |-> v[1], cek |-> v[2],
               exact |-> B2N(v[1] = "text" /\ m.body = Body(v[2], m.size) /\ m.par = <<v[2], {}>> /\ Made(v[2]).cipher = m.cipher)])
  /\ UNCHANGED <<msgs, n>>
Next == /\ UNCHANGED fam
        /\ \/ SealCode
           \/ SealOracle
           \/ Alter
           \/ Alter
           \/ Alter
           \/ Open
           \/ Open
           \/ Open
           \/ (Len(hist) < Depth /\ UNCHANGED <<msgs, n, hist>>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* nobody but a recipient of the message a content key comes from learns it
Confined == \A j \in DOMAIN msgs : \A k \in Keys : \A named, hide \in {TRUE, FALSE} :
              LET c == Cek(msgs[j], k, named, hide) IN
              c > 0 => \E r \in DOMAIN Made(c).recs : \E q \in DOMAIN Made(c).recs[r].reks : Made(c).recs[r].reks[q].to = k
\* what the authenticated ciphers deliver is a message as it was sealed
Authentic == \A j \in DOMAIN msgs : \A k \in Keys : \A named, hide \in {TRUE, FALSE} :
              LET v == VerdictA(msgs[j], Cek(msgs[j], k, named, hide)) IN
              v[1] = "text" /\ msgs[j].cipher \in Auth => msgs[j].body = Made(v[2]).body /\ msgs[j].par = Made(v[2]).par
=============================================================================

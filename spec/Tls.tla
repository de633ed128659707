-------------------------------- MODULE Tls --------------------------------
(* TLS sessions of the GOST cipher suites: who can agree with whom on what, what a
   session carries, and what becomes of it when somebody on the wire changes, drops,
   repeats, reorders, reflects or transplants records.

   A record is what it was made as - <<connection, direction, epoch, number>> - and the
   changes made to it since.  A receiver takes exactly the next record of its own
   connection, direction and epoch, unchanged; anything else ends the connection.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, G01, G256, G512, Suites, Versions, Sizes, Bursts, MaxConns, What
VARIABLES srv, conns, net, sess, hist
vars == <<srv, conns, net, sess, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(k) == Rnd(1..k) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Dirs == {"c", "s"}                 \* who writes
Peer(d) == IF d = "c" THEN "s" ELSE "c"
\* ------------------------------------------------------------- agreement
Modern == {"kuz", "magma"}
Old == {"gost01", "null01"}
Null == {"null12", "null01"}
\* which key a server needs, and which protocol
Auth(s) == CASE s \in Old -> {"g01"} [] s \in Modern -> {"g256", "g512"} [] OTHER -> {"g01", "g256", "g512"}
Vers(s) == IF s \in Modern THEN {"t12"} ELSE {"t10", "t11", "t12"}
Stream(s) == s \in {"iana", "legacy", "gost01"}
Tree(s) == s \in Modern
Tag(s) == CASE s = "kuz" -> 16 [] s = "magma" -> 8 [] s \in Null -> 32 [] OTHER -> 4
Verify(s) == IF s \in Modern THEN 32 ELSE 12
Algs(keys) == {k[1] : k \in keys}
RECURSIVE Pick(_, _, _, _)
Pick(mine, theirs, algs, v) ==     \* the client's preference decides
  IF mine = <<>> THEN "" ELSE
  LET s == Head(mine) IN
  IF (\E i \in DOMAIN theirs : theirs[i] = s) /\ v \in Vers(s) /\ Auth(s) \cap algs # {} THEN s ELSE Pick(Tail(mine), theirs, algs, v)
Fams == ({"g01"} \X G01) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
Key(f, c) == <<f[1], f[2], c>>
\* ---------------------------------------------------------------- servers
Init == srv = <<>> /\ conns = <<>> /\ net = <<>> /\ sess = <<>> /\ hist = <<>>
AnyList == Rnd([1..Rnd({1, 1, 2, 3, 4}) -> Suites])
Distinct(l) == \A i, j \in DOMAIN l : l[i] = l[j] => i = j
OfAlg(a) == CASE a = "g01" -> G01 [] a = "g256" -> G256 [] OTHER -> G512
Server ==
  /\ Len(srv) < 2
  /\ \E ks \in {{Rnd(Fams)}}, l \in {AnyList}, t \in {Coin(2)}, auth \in {Rnd({"no", "ask", "must"})} :
     \* (libssl with several GOST keys shows the certificate of one and decrypts with another)
     /\ Distinct(l)
     /\ srv' = Append(srv, [keys |-> ks, list |-> l, auth |-> auth])
     /\ Log([op |-> "server", keys |-> {Key(k, "r1") : k \in ks}, list |-> l, tickets |-> B2N(t), auth |-> auth])
  /\ UNCHANGED <<conns, net, sess>>
\* ------------------------------------------------------------ connections
NoConn(org) == [up |-> FALSE, org |-> org]
Conn(org, s, su, v, ep, ck) == [up |-> TRUE, org |-> org, ck |-> ck, srv |-> s, suite |-> su, ver |-> v, ep |-> 1, sent |-> [d \in Dirs |-> 0], got |-> [d \in Dirs |-> 0],
                       dead |-> [d \in Dirs |-> FALSE], fin |-> [d \in Dirs |-> FALSE], eof |-> [d \in Dirs |-> FALSE], empty |-> ep]
\* an alteration of the handshake: record number `rec' of it (modulo their number), bit x
\* harm to any connection of a session ends the session
Harmed(j) == \E c \in DOMAIN conns : conns[c].org = sess[j].org /\ (~conns[c].up \/ conns[c].dead["c"] \/ conns[c].dead["s"])
Connect ==
  /\ Len(conns) < MaxConns /\ srv # <<>>
  /\ \E s \in {Rnd(DOMAIN srv)}, l0 \in {AnyList}, aim \in {Coin(2)}, v0 \in {Rnd(Versions)}, ck \in {Rnd({"none", "none", "good", "good", "rogue"})}, kf \in {Rnd(Fams)},
        j \in {IF sess # <<>> /\ Coin(2) THEN Rnd(DOMAIN sess) ELSE 0}, em \in {Coin(2)},
        hit \in {IF Coin(4) THEN Rnd(0..60) ELSE -1}, x \in {Rnd(0..99999)} :
     LET l == IF j # 0 THEN sess[j].list ELSE IF aim THEN srv[s].list ELSE l0
         v == IF j # 0 THEN sess[j].ver ELSE v0
         su == Pick(l, srv[s].list, Algs(srv[s].keys), v)
         resumed == j # 0 /\ sess[j].srv = s
         \* a resumed session does not ask for certificates again
         who == IF srv[s].auth = "no" \/ resumed THEN "none" ELSE ck
         okauth == resumed \/ (~(srv[s].auth = "must" /\ who = "none") /\ who # "rogue")
         ok == su # "" /\ okauth /\ hit < 0
         id == Len(conns) + 1
         org == IF j = 0 THEN id ELSE IF ok /\ ~resumed THEN id ELSE sess[j].org IN
     /\ j # 0 => ~Harmed(j)
     /\ Distinct(l)
     /\ conns' = Append(conns, IF ok THEN Conn(org, s, IF resumed THEN sess[j].suite ELSE su, v, B2N(em /\ v = "t10" /\ su \notin Null), ck) ELSE NoConn(org))
     /\ net' = Append(net, [d \in Dirs |-> <<>>])
     /\ Log([op |-> "connect", c |-> id, srv |-> s, list |-> l, ver |-> v, ck |-> ck, key |-> Key(kf, IF ck = "rogue" THEN "r3" ELSE "r2"), sess |-> j, empty |-> B2N(em),
             suite |-> IF resumed THEN sess[j].suite ELSE su, ok |-> B2N(ok), resumed |-> B2N(resumed), why |-> IF su = "" THEN "suite" ELSE IF ~okauth THEN "auth" ELSE "",
             cert |-> IF srv[s].auth # "no" /\ ~resumed THEN ck ELSE "none", hit |-> hit, x |-> x, vlen |-> IF su = "" THEN 0 ELSE Verify(su)])
  /\ UNCHANGED <<srv, sess>>
\* both can work on it
Open(c) == conns[c].up /\ \A d \in Dirs : ~conns[c].dead[d] /\ ~conns[c].fin[d] /\ ~conns[c].eof[d]
Idle(c) == net[c]["c"] = <<>> /\ net[c]["s"] = <<>> /\ \A d \in Dirs : conns[c].got[d] = conns[c].sent[d]
Item(c, d, n, ty, k, z) == [c |-> c, d |-> d, ep |-> conns[c].ep, n |-> n, ty |-> ty, alt |-> <<>>, w |-> k, z |-> z]
\* a write is cut into pieces of 16384 bytes, each a record (the first behind an empty one, in TLS 1.0 as it is by default)
Pieces(n) == (n + 16383) \div 16384
Piece(n, i) == IF i < Pieces(n) THEN 16384 ELSE n - (16384 * (Pieces(n) - 1))
Write ==
  \E c \in {Rnd(DOMAIN conns)}, d \in {Rnd(Dirs)}, n \in {Rnd(Sizes)} :
  /\ conns[c].up /\ ~conns[c].fin[d]
  /\ LET ok == ~conns[c].dead[d] k == Len(hist) + 1 IN
     /\ conns' = IF ok THEN [conns EXCEPT ![c].sent[d] = @ + Pieces(n)] ELSE conns
     /\ net' = IF ok THEN [net EXCEPT ![c][d] = @ \o [i \in 1..Pieces(n) |-> Item(c, d, conns[c].sent[d] + i, "data", k, Piece(n, i))]] ELSE net
     /\ Log([op |-> "write", c |-> c, d |-> d, n |-> n, ok |-> B2N(ok), pieces |-> [i \in 1..Pieces(n) |-> Piece(n, i)], first |-> conns[c].sent[d] + 1, ep |-> conns[c].ep,
             empty |-> conns[c].empty, suite |-> conns[c].suite])
  /\ UNCHANGED <<srv, sess>>
\* many small records, delivered as they come
Burst ==
  \E c \in {Rnd(DOMAIN conns)}, d \in {Rnd(Dirs)}, k \in {Rnd(Bursts)}, n \in {Rnd({1, 15, 16, 17, 100})} :
  /\ Open(c) /\ net[c][d] = <<>> /\ conns[c].got[d] = conns[c].sent[d]
  /\ conns' = [conns EXCEPT ![c].sent[d] = @ + k, ![c].got[d] = @ + k]
  /\ Log([op |-> "burst", c |-> c, d |-> d, k |-> k, n |-> n])
  /\ UNCHANGED <<srv, net, sess>>
\* ------------------------------------------------------------ the adversary
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Busy(c, d) == conns[c].up /\ net[c][d] # <<>>
Wire ==
  \E c \in {Rnd(DOMAIN conns)}, d \in {Rnd(Dirs)} : Busy(c, d) /\
  \E i \in {Rnd(DOMAIN net[c][d])}, k \in {Rnd({"flip", "flip", "flip", "type", "ver", "cut", "grow", "drop", "dup", "swap", "reflect", "graft", "old"})}, x \in {Rnd(0..999999)},
     c2 \in {Rnd(DOMAIN conns)}, d2 \in {Rnd(Dirs)}, to \in {Rnd(0..Len(net[c][d]))} :
  LET q == net[c][d] it == q[i]
      alt(kk) == [net EXCEPT ![c][d][i].alt = Append(@, <<kk, x>>)] IN
  /\ CASE k \in {"flip", "type", "ver", "cut", "grow"} -> it.alt = <<>> /\ net' = alt(k)
       [] k = "drop" -> net' = [net EXCEPT ![c][d] = Del(@, i)]
       [] k = "dup" -> net' = [net EXCEPT ![c][d] = Ins(@, to, it)]
       [] k = "swap" -> i < Len(q) /\ net' = [net EXCEPT ![c][d] = Ins(Del(@, i), i, it)]
       [] k = "reflect" -> net' = [net EXCEPT ![c][Peer(d)] = Ins(@, 0, it)]
       [] k = "graft" -> Busy(c2, d2) /\ ~(c2 = c /\ d2 = d) /\ net' = [net EXCEPT ![c][d] = Ins(@, to, net[c2][d2][1])]
       \* a record that has been taken already
       [] OTHER -> conns[c].got[d] > 0 /\ \E o \in {hist[h] : h \in {h \in DOMAIN hist : hist[h].op = "write" /\ hist[h].c = c /\ hist[h].d = d /\ hist[h].ok = 1}} :
                     o.first <= conns[c].got[d] /\ net' = [net EXCEPT ![c][d] = Ins(@, to, [c |-> c, d |-> d, ep |-> o.ep, n |-> o.first, ty |-> "data", alt |-> <<>>, w |-> 0, z |-> o.pieces[1]])]
  /\ UNCHANGED <<srv, conns, sess>>
  /\ Log([op |-> "wire", k |-> k])
\* ---------------------------------------------------------------- delivery
Right(c, d, it, n) == it.c = c /\ it.d = d /\ it.ep = conns[c].ep /\ it.alt = <<>> /\ it.n = n
RECURSIVE Take(_, _, _, _)
\* how many of the records the receiver takes; then whether it ends there
Take(c, d, q, n) == IF q = <<>> THEN 0 ELSE IF Right(c, d, Head(q), n) THEN 1 + Take(c, d, Tail(q), n + 1) ELSE 0
HasAlert(q) == \E i \in DOMAIN q : q[i].ty # "data"
Deliver ==
  \E c \in {Rnd(DOMAIN conns)}, d \in {Rnd(Dirs)} : Busy(c, d) /\
  \E k \in {IF Coin(2) THEN Len(net[c][d]) ELSE Rnd(1..Len(net[c][d]))} :
  LET r == Peer(d)
      q == SubSeq(net[c][d], 1, k)
      deaf == conns[c].dead[r] \/ conns[c].eof[r]
      t == IF deaf THEN 0 ELSE Take(c, d, q, conns[c].got[d] + 1)
      good == SubSeq(q, 1, t)
      \* what ends it: something that does not fit, or an alert that does
      stop == {i \in 1..t : q[i].ty # "data"}
      upto == IF stop = {} THEN t ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
      bad == ~deaf /\ stop = {} /\ t < k
      alert == ~deaf /\ stop # {}
      ty == IF alert THEN q[upto + 1].ty ELSE ""
      dies == bad \/ ty = "alert" IN
  /\ conns' = [conns EXCEPT ![c].got[d] = @ + upto, ![c].dead[r] = @ \/ dies, ![c].eof[r] = @ \/ ty = "close", ![c].sent[r] = IF bad /\ ~conns[c].fin[r] THEN @ + 1 ELSE @]
  \* whoever finds a bad record says so
  /\ net' = [net EXCEPT ![c][d] = SubSeq(@, k + 1, Len(@)),
                        ![c][r] = IF bad /\ ~conns[c].fin[r] THEN Append(@, Item(c, r, conns[c].sent[r] + 1, "alert", 0, 2)) ELSE @]
  /\ Log([op |-> "deliver", c |-> c, d |-> d, items |-> q, take |-> upto, end |-> IF deaf THEN "deaf" ELSE IF bad THEN "bad" ELSE IF alert THEN ty ELSE "",
          says |-> B2N(bad /\ ~conns[c].fin[r]), n2 |-> conns[c].sent[r] + 1, ep |-> conns[c].ep])
  /\ UNCHANGED <<srv, sess>>
\* a new handshake in the session, by either
Renew ==
  \E c \in {Rnd(DOMAIN conns)}, by \in {Rnd(Dirs)} :
  /\ Open(c) /\ Idle(c)
  \* what a resumed session was not asked for it is asked now
  /\ srv[conns[c].srv].auth = "no" \/ conns[c].ck = "good" \/ (conns[c].ck = "none" /\ srv[conns[c].srv].auth = "ask")
  /\ conns' = [conns EXCEPT ![c].ep = @ + 1, ![c].sent = [d \in Dirs |-> 0], ![c].got = [d \in Dirs |-> 0]]
  /\ Log([op |-> "renew", c |-> c, by |-> by])
  /\ UNCHANGED <<srv, net, sess>>
Close ==
  \E c \in {Rnd(DOMAIN conns)}, d \in {Rnd(Dirs)} :
  /\ conns[c].up /\ ~conns[c].dead[d] /\ ~conns[c].fin[d]
  /\ conns' = [conns EXCEPT ![c].fin[d] = TRUE, ![c].sent[d] = @ + 1]
  /\ net' = [net EXCEPT ![c][d] = Append(@, Item(c, d, conns[c].sent[d] + 1, "close", 0, 2))]
  /\ Log([op |-> "close", c |-> c, d |-> d, n |-> conns[c].sent[d] + 1, ep |-> conns[c].ep])
  /\ UNCHANGED <<srv, sess>>
Export ==
  \E c \in {Rnd(DOMAIN conns)}, n \in {Rnd({1, 16, 31, 32, 33, 64, 100, 256})}, l \in {Rnd(1..3)}, x \in {Rnd(-1..20)} :
  /\ conns[c].up
  /\ Log([op |-> "export", c |-> c, n |-> n, label |-> l, ctx |-> x])
  /\ UNCHANGED <<srv, conns, net, sess>>
\* the client keeps the session of a connection that came to no harm
Save ==
  \E c \in {Rnd(DOMAIN conns)} :
  /\ Open(c) /\ conns[c].ep = 1
  /\ \E o \in {hist[h] : h \in {h \in DOMAIN hist : hist[h].op = "connect" /\ hist[h].c = c}} :
     /\ sess' = Append(sess, [org |-> conns[c].org, srv |-> conns[c].srv, suite |-> conns[c].suite, ver |-> conns[c].ver, list |-> o.list])
  /\ Log([op |-> "save", c |-> c])
  /\ UNCHANGED <<srv, conns, net>>
Doing(a) == "all" \in What \/ a \in What
Next == \/ Server
        \/ (srv # <<>> /\ Connect)
        \/ (conns # <<>> /\ \/ Write \/ Write \/ Write \/ Deliver \/ Deliver \/ Deliver \/ Close \/ Export \/ Save
                            \/ (Doing("burst") /\ Burst) \/ (Doing("wire") /\ (Wire \/ Wire)) \/ (Doing("renew") /\ Renew))
        \/ (Len(hist) < Depth /\ UNCHANGED vars)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* nobody takes more than was sent, nor anything in another order
Faithful == \A c \in DOMAIN conns : conns[c].up => \A d \in Dirs : conns[c].got[d] <= conns[c].sent[d]
Taken(o) == SubSeq(o.items, 1, o.take)
Genuine == \A h \in DOMAIN hist : hist[h].op = "deliver" =>
             \A i \in DOMAIN Taken(hist[h]) : LET it == Taken(hist[h])[i] IN it.alt = <<>> /\ it.c = hist[h].c /\ it.d = hist[h].d /\ it.ty = "data"
=============================================================================

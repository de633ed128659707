------------------------------- MODULE Signed -------------------------------
(* Signed things: certificates, requests and revocation lists, chains of certificates,
   and signed messages (CMS, PKCS#7) with several signers, with and without signed
   attributes, attached and detached.  Made by the code under test or by the oracle,
   altered, recombined, signed again by others, and checked.

   A signature is a term: whose key, over which bytes (as the identity of what was
   made and the alterations since), and the alterations of the signature itself. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, G01, G01dh, G256, G512, Sizes, MaxObjs, MaxMsgs, What
VARIABLES fam, objs, msgs, nid, hist
vars == <<fam, objs, msgs, nid, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(k) == Rnd(1..k) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Fams == ({"g01"} \X G01) \cup ({"g01dh"} \X G01dh) \cup ({"g256"} \X G256) \cup ({"g512"} \X G512)
Init == fam \in (Fams \X Fams) /\ objs = <<>> /\ msgs = <<>> /\ nid = 0 /\ hist = <<>>
Keys == {<<fam[1][1], fam[1][2], c>> : c \in {"r1", "r2"}} \cup {<<fam[2][1], fam[2][2], c>> : c \in {"r1", "r3"}}
None == <<"", "", "">>
\* the digest of a key's signatures
Md(k) == CASE k[1] \in {"g01", "g01dh"} -> "94" [] k[1] = "g256" -> "256" [] k[1] = "g512" -> "512" [] OTHER -> ""
Mds == {"94", "256", "512", "other"}
Sym(A, x) == IF x \in A THEN A \ {x} ELSE A \cup {x}
\* ------------------------------------------------ certificates and the like
\* a key agreement key signs no certificates: there is no identifier for that
Signs(k) == k[1] # "g01dh"
Revocable == {i \in DOMAIN objs : objs[i].k = "cert"}
Thing(k, by, subj, lst) == [k |-> k, subj |-> subj, iss |-> by, lst |-> lst, tbs |-> <<nid + 1, {}>>, alg |-> 0, inn |-> 0,
                            sig |-> [by |-> by, over |-> <<nid + 1, {}>>, bits |-> {}]]
Issue ==
  /\ "certs" \in What /\ Len(objs) < MaxObjs
  /\ \E k \in {Rnd({"cert", "cert", "cert", "cert", "req", "crl"})}, by \in {Rnd(Keys)}, t \in {Rnd(Keys)}, self \in {Coin(3)}, own \in {Coin(3)},
        md0 \in {Rnd(Mds)}, how \in {Rnd({"given", "given", "default", "wrong"})}, r \in {Rnd(SUBSET Revocable)} :
     LET subj == IF k = "req" \/ self THEN by ELSE IF k = "crl" THEN None ELSE t
         md == CASE how = "given" -> Md(by) [] how = "default" -> "" [] OTHER -> md0
         oracle == ~own
         ok == Signs(by) /\ (oracle \/ md \in {"", Md(by)}) IN
     /\ ~oracle \/ Signs(by)
     /\ nid' = nid + 1
     /\ objs' = IF ok THEN Append(objs, Thing(k, by, subj, IF k = "crl" THEN r ELSE {})) ELSE objs
     /\ Log([op |-> "issue", oracle |-> B2N(oracle), k |-> k, id |-> nid + 1, by |-> by, subj |-> subj, md |-> md, lst |-> [i \in DOMAIN objs |-> B2N(i \in r)], ok |-> B2N(ok)])
  /\ UNCHANGED msgs
AlterObj ==
  /\ objs # <<>> /\ Len(objs) < MaxObjs
  /\ \E j \in {Rnd(DOMAIN objs)}, i \in {Rnd(DOMAIN objs)}, k \in {Rnd({"tbs", "tbs", "sig", "siglen", "alg", "inner", "graft", "key", "resign"})}, x \in {Rnd(0..9999)}, w \in {Rnd(Keys)} :
     LET o == objs[j]
         \* a flip of the same thing twice would undo it: every alteration is another one
         m == <<o.tbs[1], o.tbs[2] \cup {nid + 1}>>
         b == Sym(o.sig.bits, x % 512)
         o2 == CASE k = "tbs" -> [o EXCEPT !.tbs = m]
                 [] k = "key" -> [o EXCEPT !.tbs = m, !.subj = w]
                 [] k = "sig" -> [o EXCEPT !.sig.bits = b]
                 [] k = "siglen" -> [o EXCEPT !.sig.bits = @ \cup {1000 + nid}]
                 [] k = "alg" -> [o EXCEPT !.alg = 1]
                 [] k = "inner" -> [o EXCEPT !.tbs = m, !.inn = 1]
                 \* the same content, signed by somebody else
                 [] k = "resign" -> [o EXCEPT !.sig = [by |-> w, over |-> o.tbs, bits |-> {}], !.alg = 0]
                 [] OTHER -> [o EXCEPT !.sig = objs[i].sig, !.alg = objs[i].alg] IN
     /\ k = "key" => o.k = "cert" /\ w # o.subj
     /\ k \in {"sig", "siglen"} => \A z \in o.sig.bits : z < 1000
     /\ k = "sig" => x % 512 \notin o.sig.bits
     /\ k = "alg" => o.alg = 0
     /\ k = "inner" => o.k = "cert" /\ o.inn = 0
     /\ k = "graft" => i # j
     /\ k = "resign" => Signs(w) /\ o.sig.by[1] = w[1]
     /\ nid' = nid + 1
     /\ objs' = Append(objs, o2)
     /\ Log([op |-> "change", j |-> j, i |-> i, k |-> k, x |-> x, w |-> w, n |-> nid + 1])
  /\ UNCHANGED msgs
Valid(o, k) == o.alg = 0 /\ o.inn = 0 /\ o.sig = [by |-> k, over |-> o.tbs, bits |-> {}]
Check ==
  /\ objs # <<>>
  /\ \E j \in {IF Coin(2) THEN Len(objs) ELSE Rnd(DOMAIN objs)}, k0 \in {Rnd(Keys)}, aim \in {Coin(2)} :
     LET k == IF aim THEN objs[j].sig.by ELSE k0 IN
     Log([op |-> "check", j |-> j, key |-> k, v |-> B2N(Valid(objs[j], k))])
  /\ UNCHANGED <<objs, msgs, nid>>
\* is the leaf trusted, given the root and perhaps an intermediate one, and a revocation list
Chain ==
  /\ objs # <<>>
  /\ LET Cert == {j \in DOMAIN objs : objs[j].k = "cert"}
         Roots == {j \in Cert : objs[j].tbs[2] = {} /\ objs[j].subj = objs[j].iss /\ Valid(objs[j], objs[j].subj)} IN
     /\ Roots # {} /\ Cert \ Roots # {}
     /\ \E r \in {Rnd(Roots)}, l \in {Rnd(Cert)}, i0 \in {Rnd(Cert)}, c0 \in {Rnd(DOMAIN objs)}, withi \in {Coin(2)}, crl \in {Coin(2)} :
        LET R == objs[r] L == objs[l] I == objs[i0]
            i == IF withi /\ I.subj # R.subj /\ I.subj # L.subj THEN i0 ELSE 0
            c == IF crl /\ objs[c0].k = "crl" THEN c0 ELSE 0
            issuer == IF L.iss = R.subj THEN R.subj ELSE IF i # 0 /\ I.subj = L.iss /\ I.iss = R.subj THEN I.subj ELSE None
            ok == /\ issuer # None /\ Valid(L, issuer)
                  /\ issuer = I.subj /\ L.iss # R.subj => Valid(I, R.subj)
            fresh == ~crl \/ (c # 0 /\ objs[c].iss = L.iss /\ Valid(objs[c], issuer) /\ ~\E z \in objs[c].lst : objs[z].tbs[1] = L.tbs[1]) IN
        /\ L.subj # R.subj \* (a second certificate of the root's key is neither here nor there)
        /\ L.iss # L.subj
        /\ Log([op |-> "chain", r |-> r, l |-> l, i |-> i, c |-> c, crl |-> B2N(crl), v |-> B2N(ok /\ fresh)])
  /\ UNCHANGED <<objs, msgs, nid>>
\* ------------------------------------------------------------ signed messages
\* what a signature is over: attributes (with the digest of a content in them) or a content
Over(t, id, bits, dig) == [t |-> t, id |-> id, bits |-> bits, dig |-> dig]
Dig(c, md) == <<c[1], c[2], md>>
Content(m) == Over("content", 0, {}, Dig(m.content, ""))
Signer(k, attr, id, dig) ==
  LET o == IF attr THEN Over("attrs", id, {}, dig) ELSE Over("content", 0, {}, Dig(dig, "")) IN
  [names |-> k, md |-> Md(k), attrs |-> o, hasattr |-> attr, sig |-> [by |-> k, over |-> o, bits |-> {}]]
Put(m, r) == msgs' = Append(msgs, m) /\ nid' = nid + 10 /\ Log(r)
Sign ==
  /\ "msgs" \in What /\ Len(msgs) < MaxMsgs
  /\ \E how \in {Rnd({"cms", "cms", "p7", "oracle", "oracle"})}, size \in {Rnd(Sizes)}, ns \in {Rnd({1, 1, 2, 3})}, ks \in {[i \in 1..3 |-> Rnd(Keys)]},
        attr \in {[i \in 1..3 |-> ~Coin(3)]}, det \in {Coin(3)}, md \in {Rnd(Mds)}, wrong \in {Coin(12)} :
     LET id == nid + 1
         cnt == <<IF size = 0 THEN 0 ELSE id, {}>>
         bad == how = "cms" /\ wrong /\ md # Md(ks[1])
         m == [content |-> cnt, size |-> size, det |-> det, certs |-> {ks[i] : i \in 1..ns}, si |-> [i \in 1..ns |-> Signer(ks[i], attr[i], id + i, Dig(cnt, Md(ks[i])))], old |-> how] IN
     /\ msgs' = IF bad THEN msgs ELSE Append(msgs, m)
     \* libcrypto takes no signer twice, and its CMS cannot tell digests apart that an engine provides
     /\ how # "oracle" => \A i, h \in 1..ns : i # h => ks[i] # ks[h] /\ (how = "cms" => Md(ks[i]) = Md(ks[h]))
     /\ nid' = nid + 10
     /\ Log([op |-> "sign", how |-> how, id |-> id, size |-> size, det |-> B2N(det), ok |-> B2N(~bad), md |-> IF bad THEN md ELSE "",
             si |-> [i \in 1..ns |-> [by |-> ks[i], attr |-> B2N(attr[i])]]])
  /\ UNCHANGED objs
\* another signature, from the digest in one that is there
Cosign ==
  /\ msgs # <<>> /\ Len(msgs) < MaxMsgs
  /\ \E j \in {Rnd(DOMAIN msgs)}, k \in {Rnd(Keys)} :
     LET m == msgs[j]
         from == {i \in DOMAIN m.si : m.si[i].hasattr /\ m.si[i].md = Md(k)}
         ok == from # {}
         s == CHOOSE i \in from : \A h \in from : i <= h IN
     /\ Len(m.si) < 4 /\ k \notin m.certs
     /\ \A i \in DOMAIN m.si : m.si[i].attrs.bits = {}
     /\ msgs' = IF ok THEN Append(msgs, [m EXCEPT !.si = Append(@, Signer(k, TRUE, nid + 1, m.si[s].attrs.dig)), !.certs = @ \cup {k}]) ELSE msgs
     /\ nid' = nid + 10
     /\ Log([op |-> "cosign", j |-> j, by |-> k, ok |-> B2N(ok), id |-> nid + 1])
  /\ UNCHANGED objs
AlterMsg ==
  /\ msgs # <<>> /\ Len(msgs) < MaxMsgs
  /\ \E j \in {IF Coin(2) THEN Len(msgs) ELSE Rnd(DOMAIN msgs)}, i \in {Rnd(DOMAIN msgs)}, x \in {Rnd(0..9999)}, w \in {Rnd(Keys)},
        k \in {Rnd({"content", "digest", "time", "ctype", "sig", "siglen", "names", "noattrs", "gsig", "gsi", "gcontent", "md", "uattr", "drop", "swap", "nocert", "det"})} :
     LET m == msgs[j] o == msgs[i] S == Len(m.si)
         cut == <<m.content[1], m.content[2] \cup {nid + 1}>> IN
     \E s \in {Rnd(1..S)}, t \in {Rnd(DOMAIN o.si)} :
     LET e == m.si[s]
         A(r) == [op |-> "alter", j |-> j, i |-> i, k |-> k, x |-> x, s |-> s, t |-> t, w |-> w, n |-> nid + 1] IN
     CASE k = "content" -> Put([m EXCEPT !.content = IF m.size = 0 THEN <<nid + 1, {}>> ELSE cut, !.size = IF m.size = 0 THEN 1 ELSE @], A(0))
       [] k = "digest" -> e.hasattr /\ (\A z \in e.attrs.dig[2] : z < 5000) /\ Put([m EXCEPT !.si[s].attrs.dig = <<e.attrs.dig[1], e.attrs.dig[2] \cup {5000 + nid}, e.attrs.dig[3]>>], A(0))
       [] k \in {"time", "ctype"} -> e.hasattr /\ e.attrs.bits = {} /\ Put([m EXCEPT !.si[s].attrs.bits = {nid + 1}], A(0))
       [] k = "sig" -> /\ \A z \in e.sig.bits : z < 1000
                       /\ x % 512 \notin e.sig.bits /\ Put([m EXCEPT !.si[s].sig.bits = @ \cup {x % 512}], A(0))
       [] k = "siglen" -> e.sig.bits = {} /\ Put([m EXCEPT !.si[s].sig.bits = {1000 + nid}], A(0))
       [] k = "names" -> w \in m.certs /\ Put([m EXCEPT !.si[s].names = w], A(0))
       [] k = "noattrs" -> e.hasattr /\ Put([m EXCEPT !.si[s].hasattr = FALSE], A(0))
       [] k = "gsig" -> ~(i = j /\ s = t) /\ Put([m EXCEPT !.si[s].sig = o.si[t].sig], A(0))
       [] k = "gsi" -> Put([m EXCEPT !.si[s] = o.si[t], !.certs = @ \cup {o.si[t].names}], A(0))
       [] k = "gcontent" -> i # j /\ Put([m EXCEPT !.content = o.content, !.size = o.size], A(0))
       [] k = "md" -> \E d \in {Rnd({"94", "256", "512"})} : d # e.md /\ Put([m EXCEPT !.si[s].md = d], [A(0) EXCEPT !.w = <<d, "", "">>])
       [] k = "uattr" -> Put(m, A(0))
       [] k = "drop" -> S > 1 /\ Put([m EXCEPT !.si = [z \in 1..(S - 1) |-> IF z < s THEN @[z] ELSE @[z + 1]]], A(0))
       [] k = "swap" -> s # (x % S) + 1 /\ Put([m EXCEPT !.si = [z \in DOMAIN @ |-> IF z = s THEN @[(x % S) + 1] ELSE IF z = (x % S) + 1 THEN @[s] ELSE @[z]]], A(0))
       [] k = "nocert" -> w \in m.certs /\ Put([m EXCEPT !.certs = @ \ {w}], A(0))
       [] OTHER -> Put([m EXCEPT !.det = ~@], A(0))
  /\ UNCHANGED objs
Good(m, s, given) ==
  LET o == IF s.hasattr THEN s.attrs ELSE Content(m) IN
  /\ s.names \in m.certs \cup given
  /\ s.md = Md(s.names)
  /\ s.sig = [by |-> s.names, over |-> o, bits |-> {}]
  /\ s.hasattr => s.attrs.dig = Dig(m.content, s.md)
VerifyMsg ==
  /\ msgs # <<>>
  /\ \E j \in {IF Coin(2) THEN Len(msgs) ELSE Rnd(DOMAIN msgs)}, p7 \in {Coin(3)}, give \in {Coin(2)}, w \in {Rnd(Keys)} :
     LET m == msgs[j] given == IF give THEN {w} ELSE {} IN
     Log([op |-> "verify", j |-> j, api |-> IF p7 THEN "p7" ELSE "cms", given |-> IF give THEN w ELSE None, v |-> B2N(\A i \in DOMAIN m.si : Good(m, m.si[i], given))])
  /\ UNCHANGED <<objs, msgs, nid>>
Next == /\ UNCHANGED fam
        /\ \/ Issue \/ Issue \/ AlterObj \/ AlterObj \/ Check \/ Check \/ Chain \/ Chain
           \/ Sign \/ Sign \/ Cosign \/ AlterMsg \/ AlterMsg \/ AlterMsg \/ VerifyMsg \/ VerifyMsg \/ VerifyMsg
           \/ (Len(hist) < Depth /\ UNCHANGED <<objs, msgs, nid, hist>>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* a signature that is accepted was made by that key over what is there: nobody else's, and no alteration
Unforged ==
  /\ \A j \in DOMAIN objs : \A k \in Keys : Valid(objs[j], k) => /\ objs[j].sig.by = k /\ objs[j].sig.over = objs[j].tbs
  /\ \A j \in DOMAIN msgs : \A s \in DOMAIN msgs[j].si : Good(msgs[j], msgs[j].si[s], {}) =>
       LET e == msgs[j].si[s] IN <<e.sig.over.dig[1], e.sig.over.dig[2]>> = msgs[j].content /\ e.sig.by = e.names /\ (e.hasattr <=> e.sig.over.t = "attrs")
=============================================================================

---------------------------- MODULE CipherParams ----------------------------
(* Histories of contexts that hand out and receive ASN.1 parameters, in any order
   with initialisation and data, the parameters altered on the way.  The value of
   the parameters is a list of elements; Reads gives what a cipher makes of it.
   An IV (seed) is a sequence: where it came from, then the steps at which a bit of
   it was changed.  Every log entry carries the predicted result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Algs, MaxLen
VARIABLES slot, box, hist
vars == <<slot, box, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Id == Len(hist) + 1
B2N(b) == IF b THEN 1 ELSE 0
Pick(q, x) == q[1 + (x % Len(q))]

(* ------------------------------------------------------------ the ciphers *)
G89 == {"g28cfb", "g28cbc", "g28cnt", "g28cn12", "mcbc"}
Free == {"g28cfb", "g28cbc"}
Ctr == {"mctr", "mctra", "mctro", "kctr", "kctra", "kctro"}
Acpkm == {"mctra", "kctra"}
Omac == {"mctro", "kctro"}
Unsup == Algs \ (G89 \cup Ctr)
OwnBox(al) == IF al = "g28cnt" THEN "A" ELSE "Z"
IvLen(al) == CASE al \in G89 \cup {"mmgm"} -> 8 [] al \in {"mctr", "mctra", "mctro"} -> 4 [] al \in {"kctr", "kctra", "kctro"} -> 8
               [] al \in {"mecb", "kecb"} -> 0 [] OTHER -> 16
B(al) == IF al \in {"kctr", "kctra", "kctro", "kecb", "kcbc", "kcfb", "kofb", "kmgm"} THEN 16 ELSE 8
Whole(al) == al \in {"g28cbc", "mcbc", "mecb", "kecb", "kcbc"}
DefSec(al) == CASE al \in {"g28cfb", "g28cnt", "g28cn12"} -> 1024 [] al = "mctra" -> 1024 [] al = "kctra" -> 4096 [] OTHER -> 0
BigSec(al) == CASE al = "mctra" -> 8192 [] al = "kctra" -> 262144 [] OTHER -> DefSec(al)
Mode(al) == CASE al = "g28cfb" -> "cfb" [] al \in {"g28cbc", "mcbc", "kcbc"} -> "cbc" [] al \in {"g28cnt", "g28cn12"} -> "cnt"
              [] al \in {"mecb", "kecb"} -> "ecb" [] al = "kcfb" -> "cfb" [] al = "kofb" -> "ofb" [] al \in {"mmgm", "kmgm"} -> "mgm" [] OTHER -> "ctr"
Boxes == {"A", "B", "C", "D", "T", "Z"}

(* ------------------------------------------------------------ parameters
   one value: t the type of the whole, e its elements.  An octet string has parts
   <<what, origin, from, length>>: bytes of the IV or the seed, or zeros. *)
Os(parts) == [k |-> "os", parts |-> parts, o |-> ""]
Oid(o) == [k |-> "oid", parts |-> <<>>, o |-> o]
Raw(k, parts) == [k |-> k, parts |-> parts, o |-> ""]
IvPart(al, iv) == <<"iv", iv, IvLen(al)>>
SeedPart(sd) == <<"seed", sd, 8>>
RECURSIVE LenOf(_)
LenOf(p) == IF p = <<>> THEN 0 ELSE p[1][3] + LenOf(Tail(p))
Value(al, o) == IF al \in G89 THEN <<Os(<<IvPart(al, o.iv)>>), Oid(o.sbox)>> ELSE <<Os(<<IvPart(al, o.iv), SeedPart(o.seed)>>)>>
\* what a cipher makes of a value: accepted at all
Reads(al, t, e) ==
  /\ t = "seq"
  /\ IF al \in G89 THEN /\ Len(e) = 2 /\ e[1].k = "os" /\ e[2].k = "oid"
                        /\ LenOf(e[1].parts) = 8
                        /\ e[2].o \in (IF al \in Free THEN Boxes ELSE {OwnBox(al)})
     ELSE IF al \in Ctr THEN Len(e) = 1 /\ e[1].k = "os" /\ LenOf(e[1].parts) = IvLen(al) + 8
     ELSE FALSE
Alts89 == <<"type", "cut", "short", "long", "empty", "extra", "tag", "oid", "badoid", "otheroid", "nooid", "swap", "iv", "cons", "undef">>
Alts15 == <<"type", "cut", "short", "long", "empty", "extra", "tag", "more", "iv", "seed", "cons", "undef", "none">>
\* short: the last byte of the octet string is missing; long: one more; cut: the encoding ends early
Alter(a, v, x) ==
  LET e == v.e h == e[1] p == h.parts
      osx(q) == [e EXCEPT ![1] = Os(q)]
      last == p[Len(p)]
  IN CASE a = "" -> [v EXCEPT !.t = "seq"]
       [] a = "type" -> [v EXCEPT !.t = Pick(<<"os", "null", "int", "set", "oid", "utf8">>, x)]
       [] a = "undef" -> [v EXCEPT !.t = "undef"]
       [] a = "cut" -> [v EXCEPT !.t = "cut"]
       [] a = "cons" -> [v EXCEPT !.t = "inner"]           \* the sequence inside another sequence
       [] a = "none" -> [v EXCEPT !.e = <<>>]
       [] a = "short" -> [v EXCEPT !.e = osx([p EXCEPT ![Len(p)] = <<last[1], last[2], last[3] - 1>>])]
       [] a = "long" -> [v EXCEPT !.e = osx(Append(p, <<"zero", <<>>, 1 + (x % 9)>>))]
       [] a = "empty" -> [v EXCEPT !.e = osx(<<>>)]
       [] a = "extra" -> [v EXCEPT !.e = Append(e, Pick(<<Raw("null", <<>>), Os(<<>>), Raw("int", <<>>)>>, x))]
       [] a = "more" -> [v EXCEPT !.e = Append(e, Oid("Z"))]
       [] a = "tag" -> [v EXCEPT !.e = [e EXCEPT ![1] = Raw(Pick(<<"int", "bits", "utf8", "seq", "ctx">>, x), p)]]
       [] a = "oid" -> [v EXCEPT !.e = [e EXCEPT ![2] = Oid(Pick(<<"A", "B", "C", "D", "T", "Z">>, x))]]
       [] a = "badoid" -> [v EXCEPT !.e = [e EXCEPT ![2] = Oid("1.2.643.99.1")]]
       [] a = "otheroid" -> [v EXCEPT !.e = [e EXCEPT ![2] = Oid(Pick(<<"1.2.643.2.2.9", "1.2.643.2.2.35.1", "1.2.643.2.2.31.7", "1.2.643.7.1.2.5.1">>, x))]]
       [] a = "nooid" -> [v EXCEPT !.e = <<h>>]
       [] a = "swap" -> [v EXCEPT !.e = <<e[2], h>>]
       [] a = "iv" -> [v EXCEPT !.e = osx([p EXCEPT ![1] = <<"iv", Append(p[1][2], Id), p[1][3]>>])]
       [] a = "seed" -> [v EXCEPT !.e = osx([p EXCEPT ![2] = <<"seed", Append(p[2][2], Id), 8>>])]

(* ---------------------------------------------------------------- contexts *)
None == [st |-> "none", alg |-> "", enc |-> 0, key |-> 0, iv |-> <<>>, sbox |-> "", seed |-> <<>>, big |-> FALSE, sec |-> 0, seg |-> <<>>, len |-> 0]
Init == slot = [s \in 1..NSlots |-> None] /\ box = <<>> /\ hist = <<>>

New(s) ==
  /\ slot[s].st \in {"none", "run"} \/ Coin(4)
  /\ \E W \in {<<Rnd(Algs), Rnd(0..1), Rnd(1..3)>>} :
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "bare", !.alg = W[1], !.enc = W[2], !.sbox = OwnBox(W[1])]]
     /\ UNCHANGED box
     /\ Log([op |-> "new", s |-> s, alg |-> W[1], enc |-> W[2]])
\* key and/or IV; a new IV brings the default section size back
Start(s) ==
  /\ slot[s].st # "none"
  /\ \E W \in {<<Rnd(0..3), Rnd(0..4), Rnd(1..3)>>} :
     LET o == slot[s]
         k == IF o.key = 0 /\ W[1] = 0 THEN 1 ELSE W[1]
         v0 == IF o.iv = <<>> /\ W[2] = 0 /\ IvLen(o.alg) > 0 THEN 1 ELSE IF W[3] = 1 /\ o.iv # <<>> THEN 0 ELSE W[2]
         v == IF o.alg \in {"mmgm", "kmgm"} /\ v0 = 0 THEN 1 + (W[1] % 3) ELSE v0       \* MGM: no message without its own nonce
         sec == IF o.big /\ v = 0 THEN BigSec(o.alg) ELSE DefSec(o.alg)
     IN /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.st = "ready", !.key = IF k # 0 THEN k ELSE @, !.iv = IF v # 0 THEN <<v>> ELSE @,
                                                !.big = @ /\ v = 0, !.sec = sec, !.seg = <<>>, !.len = 0,
                                                !.seed = IF o.alg \in Omac /\ o.enc = 1 /\ k # 0 THEN <<>> ELSE @]]
        /\ UNCHANGED box
        /\ Log([op |-> "start", s |-> s, alg |-> o.alg, key |-> k, iv |-> v, enc |-> o.enc, parts |-> <<>>])
\* the receiver's way: parameters first, then the key
StartKey(s) ==
  /\ slot[s].st \in {"given", "run"} /\ slot[s].iv # <<>>
  /\ \E k \in {Rnd(1..3)} :
     LET o == slot[s] IN
     /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.st = "ready", !.key = k, !.sec = IF o.big THEN BigSec(o.alg) ELSE DefSec(o.alg), !.seg = <<>>, !.len = 0,
                                             !.seed = IF o.alg \in Omac /\ o.enc = 1 THEN <<>> ELSE @]]
     /\ UNCHANGED box
     /\ Log([op |-> "start", s |-> s, alg |-> o.alg, key |-> k, iv |-> 0, enc |-> o.enc])
SetBox(s) ==
  /\ slot[s].alg \in Free /\ slot[s].st \in {"bare", "ready"}
  /\ \E b \in {Rnd(Boxes)} :
     /\ slot' = [slot EXCEPT ![s].sbox = b] /\ UNCHANGED box
     /\ Log([op |-> "sbox", s |-> s, alg |-> slot[s].alg, v |-> b])
\* a seed nobody has seen yet is named after the first parameters that show it
Take(s) ==
  /\ slot[s].st \in {"ready", "given"} /\ slot[s].len = 0
  /\ slot[s].iv # <<>> \/ slot[s].alg \in Unsup
  /\ slot[s].enc = 1 \/ slot[s].alg \in G89 \cup Unsup \/ slot[s].seed # <<>>
  /\ slot[s].st = "ready" \/ slot[s].seed # <<>> \/ slot[s].alg \notin Omac
  /\ LET o == slot[s] al == o.alg sup == al \notin Unsup
         fresh == al \in Ctr /\ o.seed = <<>>
         p == [o EXCEPT !.seed = IF fresh THEN <<Id>> ELSE @, !.big = @ \/ al \in Acpkm, !.sec = IF al \in Acpkm THEN BigSec(al) ELSE @]
         v == IF sup THEN Value(al, p) ELSE <<>>
     IN /\ slot' = [slot EXCEPT ![s] = IF sup THEN p ELSE o]
        /\ box' = IF ~sup THEN box ELSE IF Len(box) >= 4 THEN Append(Tail(box), [al |-> al, e |-> v]) ELSE Append(box, [al |-> al, e |-> v])
        /\ Log([op |-> "take", s |-> s, alg |-> al, ok |-> B2N(sup), e |-> v, fresh |-> B2N(fresh)])
\* a value made by hand, as another implementation would write it
Make(al, v, b, id) == [al |-> al, e |-> IF al \in G89 THEN <<Os(<<<<"iv", <<v>>, 8>>>>), Oid(b)>>
                                         ELSE <<Os(<<<<"iv", <<v>>, IvLen(al)>>, <<"seed", <<0 - id>>, 8>>>>)>>]
Give(s) ==
  /\ slot[s].st # "none"
  /\ \E W \in {<<Rnd(0..239), Rnd(1..4), Rnd(Boxes), Rnd(0..239), Rnd(0..1), Rnd(1..4), Rnd(0..59), Rnd(1..3)>>} :
     LET o == slot[s] al == o.alg
         fam == CASE al \in G89 \cup Ctr -> al [] OTHER -> IF B(al) = 8 THEN "mctra" ELSE "kctra"
         mine == SelectSeq(box, LAMBDA p : p.al = fam)
         from == IF mine # <<>> /\ W[5] = 1 THEN mine[Len(mine)]
                 ELSE IF box # <<>> /\ W[6] = 1 THEN Pick(box, W[1])
                 ELSE Make(fam, W[2], IF fam \in Free THEN W[3] ELSE IF W[8] = 1 THEN W[3] ELSE OwnBox(fam), Id)
         a == IF W[7] % 2 = 1 THEN "" ELSE Pick(IF from.al \in G89 THEN Alts89 ELSE Alts15, W[1])
         v == Alter(a, [t |-> "seq", e |-> from.e], W[4])
         ok == Reads(al, v.t, v.e)
     IN /\ slot' = [slot EXCEPT ![s] = IF ~ok THEN o ELSE
              [o EXCEPT !.st = IF o.st = "ready" THEN "ready" ELSE "given", !.iv = v.e[1].parts[1][2],
                        !.sbox = IF al \in Free THEN v.e[2].o ELSE @, !.seed = IF al \in Ctr THEN v.e[1].parts[2][2] ELSE @,
                        !.big = @ \/ al \in Acpkm, !.sec = IF al \in Acpkm THEN BigSec(al) ELSE @]]
        \* bytes of another cipher's IV and seed only go through a context when they divide alike
        /\ ok => (IF al \in G89 THEN v.e[1].parts[1][3] = 8 ELSE Len(v.e[1].parts) = 2 /\ v.e[1].parts[1][3] = IvLen(al))
        /\ UNCHANGED box
        /\ Log([op |-> "give", s |-> s, alg |-> al, t |-> v.t, e |-> v.e, alt |-> a, x |-> W[4], ok |-> B2N(ok)])
Sizes(o) == {0, 1, B(o.alg), B(o.alg) + 1, Rnd(0..100), Rnd(0..MaxLen)}
            \cup (IF o.sec = 0 THEN {} ELSE {o.sec - (o.len % o.sec) - 1, o.sec - (o.len % o.sec), o.sec - (o.len % o.sec) + 1})
Upd(s) ==
  /\ slot[s].st \in {"ready", "run"} /\ slot[s].alg \notin Omac
  /\ \E n0 \in {Rnd(Sizes(slot[s]))} :
     LET o == slot[s] n == IF Whole(o.alg) THEN n0 - (n0 % B(o.alg)) ELSE n0 IN
     /\ n > 0 /\ o.len + n <= MaxLen + 300
     /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.st = "run", !.seg = Append(@, <<Id, n>>), !.len = @ + n]]
     /\ UNCHANGED box
     /\ Log([op |-> "upd", s |-> s, alg |-> o.alg, mode |-> Mode(o.alg), n |-> n, pos |-> o.len, seg |-> Append(o.seg, <<Id, n>>), key |-> o.key, iv |-> o.iv,
             sbox |-> IF o.alg \in Free THEN o.sbox ELSE "", sec |-> o.sec, enc |-> o.enc])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : New(s)
        \/ \E s \in 1..NSlots : slot[s].st = "none" /\ New(s)
        \/ \E s \in {S} : Start(s)
        \/ \E s \in {S} : slot[s].st = "bare" /\ Start(s)
        \/ \E s \in {S} : StartKey(s)
        \/ \E s \in 1..NSlots : slot[s].st = "given" /\ StartKey(s)
        \/ \E s \in {S} : SetBox(s)
        \/ \E s \in {S} : Take(s)
        \/ \E s \in 1..NSlots : Take(s)
        \/ \E s \in {S} : Give(s)
        \/ \E s \in 1..NSlots : Give(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in 1..NSlots : slot[s].st = "ready" /\ Upd(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* parameters handed out are read by the cipher that made them
SelfRead == \A i \in 1..Len(box) : Reads(box[i].al, "seq", box[i].e)
=============================================================================

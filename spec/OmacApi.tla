------------------------------ MODULE OmacApi ------------------------------
(* CTR-ACPKM-OMAC as CMS uses it.  A sender context gets key and IV, draws a seed,
   hands out its parameters (IV and seed), encrypts, and hands out the encrypted
   MAC.  A receiver context gets parameters, then the key, then the MAC, then the
   ciphertext, each of them possibly altered on the way.  Contexts are used again,
   copied, and called before they have a key.
   Every context holds one message at a time; `box` is what senders have finished. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Alg, Ops, MaxLen
VARIABLES slot, box, hist
vars == <<slot, box, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
B == IF Alg = "m" THEN 8 ELSE 16
Big == IF Alg = "m" THEN 8192 ELSE 262144
DefSec == IF Alg = "m" THEN 1024 ELSE 4096
Id == Len(hist) + 1
\* par: which export the seed came from;  sec: section size in force;  m: what a receiver is being sent
NoMsg == [id |-> 0, key |-> 0, par |-> 0, iv |-> 0, sec |-> 0, seg |-> <<>>, len |-> 0]
None == [st |-> "none", role |-> "", key |-> 0, par |-> 0, iv |-> 0, sec |-> 0, psec |-> 0, seg |-> <<>>, len |-> 0, m |-> NoMsg,
         alt |-> "", ctalt |-> "", pos |-> 0, tag |-> NoMsg, talt |-> ""]
Init == slot = [s \in 1..NSlots |-> None] /\ box = <<>> /\ hist = <<>>
Sizes(o) == {0, 1, B - 1, B, B + 1, Rnd(0..(4 * B)), Rnd(0..MaxLen), o.sec - (o.len % o.sec), o.sec - (o.len % o.sec) + 1, o.sec - (o.len % o.sec) - 1}

\* ---- sender: the seed changes with the key, the section size of the parameters stands until a new IV
SInit(s) ==
  \E new \in {Rnd({0, 1})}, k \in {Rnd(0..3)}, v \in {Rnd(0..3)} :
  LET p == slot[s] re == new = 0 /\ p.role = "snd" /\ p.st # "none"
      key == IF k = 0 /\ ~re THEN 1 ELSE k  iv == IF v = 0 /\ ~re THEN 1 ELSE v
  IN /\ p.st \in {"none", "done"} \/ Coin(6)
     /\ ~re \/ "reinit" \in Ops
     /\ ~re \/ p.par # 0 \/ key # 0
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.role = "snd", !.st = IF key # 0 THEN "fresh" ELSE "run", !.key = IF key # 0 THEN key ELSE p.key,
            !.iv = IF iv # 0 THEN iv ELSE p.iv, !.par = IF key # 0 THEN 0 ELSE p.par,
            !.sec = IF re /\ iv = 0 /\ p.psec # 0 THEN p.psec ELSE DefSec, !.psec = IF re /\ iv = 0 THEN p.psec ELSE 0]]
     /\ UNCHANGED box
     /\ Log([op |-> "sinit", s |-> s, new |-> B2N(~re), key |-> key, iv |-> iv])
SExp(s) ==
  /\ slot[s].role = "snd" /\ (slot[s].st = "fresh" \/ (slot[s].st = "run" /\ slot[s].len = 0))
  /\ slot' = [slot EXCEPT ![s].st = "run", ![s].par = IF @ = 0 THEN Id ELSE @, ![s].sec = Big, ![s].psec = Big]
  /\ UNCHANGED box
  /\ Log([op |-> "sexp", s |-> s, iv |-> slot[s].iv, par |-> slot[s].par])
SUpd(s) ==
  /\ slot[s].role = "snd" /\ slot[s].st = "run"
  /\ \E n \in {Rnd(Sizes(slot[s]))}, ip \in {Rnd({0, 1})} :
     /\ n <= MaxLen /\ (n > 0 \/ Coin(3))
     /\ slot' = [slot EXCEPT ![s].len = @ + n, ![s].seg = Append(@, <<Id, n>>)]
     /\ UNCHANGED box
     /\ Log([op |-> "supd", s |-> s, n |-> n, ip |-> ip, pos |-> slot[s].len, key |-> slot[s].key, par |-> slot[s].par, iv |-> slot[s].iv, sec |-> slot[s].sec])
Msg(o, id) == [id |-> id, key |-> o.key, par |-> o.par, iv |-> o.iv, sec |-> o.sec, seg |-> o.seg, len |-> o.len]
SFin(s) ==
  /\ slot[s].role = "snd" /\ slot[s].st = "run"
  /\ slot[s].len > 0 \/ Coin(4)
  /\ box' = IF Len(box) >= 3 THEN Append(Tail(box), Msg(slot[s], Id)) ELSE Append(box, Msg(slot[s], Id))
  /\ slot' = [slot EXCEPT ![s].st = "done"]
  /\ Log([op |-> "sfin", s |-> s, m |-> Msg(slot[s], Id)])
\* ---- receiver
RPar(s) ==
  /\ box # <<>>
  /\ slot[s].st \in {"none", "done"} \/ Coin(6)
  /\ \E new \in {Rnd({0, 1})}, b \in {Rnd(1..Len(box))}, a \in {IF Coin(2) THEN "" ELSE Rnd({"", "seed", "iv"})}, c \in {IF Coin(2) THEN "" ELSE Rnd({"", "flip", "cut", "ext", "last"})} :
     LET p == slot[s] re == new = 0 /\ p.role = "rcv" /\ "reinit" \in Ops
         m == box[b]
         ca == IF m.len = 0 /\ c \in {"flip", "cut", "last"} THEN "" ELSE c
     IN /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.role = "rcv", !.st = "par", !.m = m, !.alt = a, !.ctalt = ca, !.sec = Big, !.iv = m.iv,
                                                  !.key = IF re THEN p.key ELSE 0, !.tag = IF re THEN p.tag ELSE NoMsg, !.talt = IF re THEN p.talt ELSE ""]]
        /\ UNCHANGED box
        /\ Log([op |-> "rpar", s |-> s, new |-> B2N(~re), m |-> m, alt |-> a])
RKey(s) ==
  /\ slot[s].role = "rcv" /\ slot[s].st \in {"par", "done"}
  /\ \E k \in {IF Coin(8) THEN Rnd(1..4) ELSE slot[s].m.key} :
     /\ slot' = [slot EXCEPT ![s].st = "run", ![s].key = k, ![s].pos = 0]
     /\ UNCHANGED box
     /\ Log([op |-> "rkey", s |-> s, key |-> k, iv |-> 0])
\* the same message once more, or an IV given explicitly (which brings the default section size back)
RAgain(s) ==
  /\ "reinit" \in Ops /\ slot[s].role = "rcv" /\ slot[s].st = "done"
  /\ slot' = [slot EXCEPT ![s].st = "run", ![s].pos = 0]
  /\ UNCHANGED box
  /\ Log([op |-> "rkey", s |-> s, key |-> 0, iv |-> 0])
RIv(s) ==
  /\ slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].pos = 0 /\ slot[s].m.sec = DefSec /\ slot[s].sec # DefSec
  /\ slot' = [slot EXCEPT ![s].sec = DefSec, ![s].iv = slot[s].m.iv, ![s].alt = IF @ = "iv" THEN "" ELSE @]
  /\ UNCHANGED box
  /\ Log([op |-> "rkey", s |-> s, key |-> 0, iv |-> slot[s].m.iv])
RTag(s) ==
  /\ slot[s].role = "rcv" /\ slot[s].st \in {"par", "run"}
  /\ slot[s].tag.id # slot[s].m.id \/ Coin(5)
  /\ \E t \in {IF Coin(2) THEN "" ELSE Rnd({"", "flip", "short", "long", "none"})} :
     /\ slot' = [slot EXCEPT ![s].tag = IF t \in {"", "flip"} THEN slot[s].m ELSE @, ![s].talt = IF t \in {"", "flip"} THEN t ELSE @]
     /\ UNCHANGED box
     /\ Log([op |-> "rtag", s |-> s, id |-> slot[s].m.id, alt |-> t, ok |-> B2N(t \in {"", "flip"})])
CtLen(o) == CASE o.ctalt = "cut" -> o.m.len - 1 [] o.ctalt = "ext" -> o.m.len + 1 [] OTHER -> o.m.len
RUpd(s) ==
  /\ slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].sec = slot[s].m.sec
  /\ LET o == slot[s] left == CtLen(o) - o.pos IN
     \E n0 \in {Rnd(Sizes([o EXCEPT !.len = o.pos]) \cup {left})}, all \in {Coin(2)}, ip \in {Rnd({0, 1})} :
     LET n == IF all \/ n0 > left THEN left ELSE n0 IN
     /\ n > 0 \/ Coin(4)
     /\ slot' = [slot EXCEPT ![s].pos = @ + n]
     /\ UNCHANGED box
     /\ Log([op |-> "rupd", s |-> s, n |-> n, pos |-> o.pos, ctalt |-> o.ctalt, m |-> o.m, ip |-> ip,
             same |-> B2N(o.alt = "" /\ o.key = o.m.key /\ o.ctalt = "")])
\* messages without data that agree in key, parameters and IV have one and the same MAC
Same(m, n) == m.id = n.id \/ (m.len = 0 /\ n.len = 0 /\ m.key = n.key /\ m.par = n.par /\ m.iv = n.iv)
Good(o) == o.alt = "" /\ o.ctalt \in {"", "ext"} /\ o.key = o.m.key /\ o.pos = o.m.len /\ Same(o.tag, o.m) /\ o.talt = "" /\ o.sec = o.m.sec /\ o.iv = o.m.iv
RFin(s) ==
  /\ slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].sec = slot[s].m.sec
  /\ slot[s].pos = CtLen(slot[s]) \/ Coin(8)
  /\ slot[s].tag.id = slot[s].m.id \/ Coin(4)
  /\ slot' = [slot EXCEPT ![s].st = "done"]
  /\ UNCHANGED box
  /\ Log([op |-> "rfin", s |-> s, ok |-> B2N(Good(slot[s]))])
\* ---- without a key nothing is processed
NoKey(s) ==
  /\ "order" \in Ops /\ Coin(3)
  /\ slot[s].role = "rcv" /\ slot[s].st = "par" /\ slot[s].key = 0
  /\ UNCHANGED <<slot, box>>
  /\ \E n \in {Rnd({0, 1, 16, 40})} : Log([op |-> "nokey", s |-> s, n |-> n])
Copy(s) ==
  /\ "copy" \in Ops /\ slot[s].st \in {"run", "par"}
  /\ \E t \in {Rnd(1..NSlots)} : s # t /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ UNCHANGED box /\ Log([op |-> "copy", s |-> s, t |-> t])
Free(s) == /\ "copy" \in Ops /\ slot[s].st # "none" /\ Coin(4) /\ slot' = [slot EXCEPT ![s] = None] /\ UNCHANGED box /\ Log([op |-> "free", s |-> s])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : SInit(s)
        \/ \E s \in {S} : SExp(s)
        \/ \E s \in {S} : slot[s].st = "fresh" /\ SExp(s)
        \/ \E s \in {S} : SUpd(s)
        \/ \E s \in {S} : SUpd(s)
        \/ \E s \in {S} : SFin(s)
        \/ \E s \in {S} : RPar(s)
        \/ \E s \in {S} : RPar(s)
        \/ \E s \in {S} : RKey(s)
        \/ \E s \in {S} : slot[s].st = "par" /\ RKey(s)
        \/ \E s \in {S} : RAgain(s)
        \/ \E s \in {S} : RIv(s)
        \/ \E s \in {S} : RTag(s)
        \/ \E s \in 1..NSlots : slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].pos < CtLen(slot[s]) /\ RUpd(s)
        \/ \E s \in 1..NSlots : slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].tag.id # slot[s].m.id /\ RTag(s)
        \/ \E s \in 1..NSlots : slot[s].role = "rcv" /\ slot[s].st = "run" /\ slot[s].pos = CtLen(slot[s]) /\ RFin(s)
        \/ \E s \in {S} : RUpd(s)
        \/ \E s \in {S} : RUpd(s)
        \/ \E s \in {S} : RFin(s)
        \/ \E s \in {S} : RFin(s)
        \/ \E s \in {S} : NoKey(s)
        \/ \E s \in {S} : Copy(s)
        \/ \E s \in {S} : Free(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* a message only ever leaves a sender whose seed was handed out, under that sender's key
Sealed == \A i \in 1..Len(box) : box[i].par # 0 /\ box[i].key # 0 /\ box[i].iv # 0
=============================================================================

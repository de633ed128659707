------------------------------- MODULE MgmApi -------------------------------
(* The AEAD interface as a user drives it: key/nonce given together or apart,
   associated data and text in pieces, tags set and taken, copies, calls in the
   wrong order, and messages tampered with on the way.  Contexts: 1..NSlots.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Depth, NSlots, Alg, Ops, MaxLen
VARIABLES slot, hist
vars == <<slot, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Min(a, b) == IF a < b THEN a ELSE b
B == IF Alg = "mmgm" THEN 8 ELSE 16
Keys == 1..3
Ivs == 1..6     \* 1-3 random, 4 text counter near wrap, 5 multiplier counter near wrap, 6 all ones

\* kset/ivok: usable key / unspent nonce.  tag: 0 never set, 1 set for this message, 2 left over (not relied on).  script: what the receiver is going to be given
None == [st |-> "none", enc |-> 1, key |-> 0, iv |-> 0, kset |-> 0, ivok |-> 0, al |-> 0, ml |-> 0, ach |-> <<>>, mch |-> <<>>,
         tag |-> 0, last |-> 0, msg |-> 0, sa |-> 0, sm |-> 0, da |-> 0, dm |-> 0, tamper |-> "none", bad |-> 0]
Init == slot = [s \in 1..NSlots |-> None] /\ hist = <<>>

Tampers == {"none", "none0", "none1", "none2", "none3", "none4", "none5", "none6", "ct", "aad", "tag", "nonce", "key", "cttrunc", "ctext", "aadtrunc", "aadext", "swap"}
Lens == {0, 1, 2, B - 1, B, B + 1, 2 * B, 3 * B + 1, Rnd(0..(4 * B)), Rnd(0..MaxLen), Rnd(0..100)}
Draw == {[sa |-> Rnd(Lens), sm |-> Rnd(Lens), t |-> Rnd(Tampers)]}     \* to be bound with \E: drawn once
Script(o, w) ==
  LET sa == w.sa  sm0 == w.sm
      sm == IF sa + sm0 = 0 THEN 1 ELSE sm0
      t0 == w.t
      t == IF t0 \in {"none0", "none1", "none2", "none3", "none4", "none5", "none6"} THEN "none"
           ELSE IF t0 \in {"ct", "cttrunc"} /\ sm = 0 THEN "tag"
           ELSE IF t0 \in {"aad", "aadtrunc"} /\ sa = 0 THEN "tag"
           ELSE IF t0 = "swap" /\ (sa < 1 \/ sm < 1) THEN "tag" ELSE t0
      da == IF t = "aadtrunc" THEN sa - 1 ELSE IF t = "aadext" THEN sa + 1 ELSE IF t = "swap" THEN sa - 1 ELSE sa
      dm == IF t = "cttrunc" THEN sm - 1 ELSE IF t = "ctext" THEN sm + 1 ELSE IF t = "swap" THEN sm + 1 ELSE sm
  IN [o EXCEPT !.sa = sa, !.sm = sm, !.da = da, !.dm = dm, !.tamper = t]
Begin(o, w) == [(IF o.enc = 0 THEN Script(o, w) ELSE o) EXCEPT !.al = 0, !.ml = 0, !.ach = <<>>, !.mch = <<>>, !.msg = Len(hist) + 1, !.bad = 0]
InitRec(s, o, k, v, e, new) == [op |-> "init", s |-> s, alg |-> Alg, new |-> new, key |-> k, iv |-> v, enc |-> e,
   msg |-> o.msg, sa |-> o.sa, sm |-> o.sm, tamper |-> o.tamper]

New(s) ==
  \E e \in {Rnd({0, 1})}, k \in {IF Coin(5) THEN 0 ELSE Rnd(Keys)}, v \in {IF Coin(5) THEN 0 ELSE Rnd(Ivs)}, w \in Draw :
    LET o0 == [None EXCEPT !.st = "live", !.enc = e, !.key = k, !.iv = v, !.kset = IF k # 0 THEN 1 ELSE 0, !.ivok = IF v # 0 THEN 1 ELSE 0]
        o == Begin(o0, w)
    IN /\ slot[s].st = "none" \/ Coin(6)
       /\ slot' = [slot EXCEPT ![s] = o]
       /\ Log(InitRec(s, o, k, v, e, 1))
Reinit(s) ==
  /\ slot[s].st = "live"
  /\ \E k \in {Rnd({0, 0, 1, 2})}, v \in {IF Coin(4) THEN 0 ELSE Rnd(Ivs)}, chg \in {Rnd({0, 1, 2})}, w \in Draw :
     LET p == slot[s]
         e == IF chg = 1 THEN 1 - p.enc ELSE p.enc
         o0 == [p EXCEPT !.enc = e, !.key = IF k # 0 THEN k ELSE @, !.kset = IF k # 0 THEN 1 ELSE @,
                         !.iv = IF v # 0 THEN v ELSE @, !.ivok = IF v # 0 THEN 1 ELSE @, !.tag = IF @ = 0 /\ p.last = 0 THEN 0 ELSE 2, !.last = 0]
         o == Begin(o0, w)
     IN /\ k # 0 \/ v # 0
        /\ p.bad = 0 \/ v # 0
        /\ slot' = [slot EXCEPT ![s] = o]
        /\ Log(InitRec(s, o, k, v, IF chg = 1 THEN e ELSE 2, 0))

Ready(o) == o.kset = 1 /\ o.ivok = 1
NextLens(o, pos, room) == {Min(n, room) : n \in {0, 1, B - 1, B, B + 1, B - (pos % B), Rnd(0..(3 * B)), Rnd(0..MaxLen)} \cup (IF o.enc = 0 THEN {room, room + 1, room + 2, room + 3} ELSE {})}
ARoom(o) == IF o.enc = 0 THEN o.da - o.al ELSE MaxLen
MRoom(o) == IF o.enc = 0 THEN o.dm - o.ml ELSE MaxLen * 2

Aad(s) ==
  /\ slot[s].st = "live" /\ slot[s].bad = 0
  /\ LET o == slot[s] IN
     /\ o.ml = 0 \/ Coin(6)
     /\ Ready(o) \/ Coin(3)
     /\ (IF o.enc = 0 THEN o.al < o.da ELSE o.al = 0) \/ Coin(5)
     /\ \E n \in {Rnd(NextLens(o, o.al, IF ARoom(o) > MaxLen THEN MaxLen ELSE ARoom(o)))} :
        LET ok == Ready(o) /\ o.ml = 0
            p == [o EXCEPT !.al = @ + n, !.ach = Append(@, [id |-> Len(hist) + 1, n |-> n])]
        IN /\ n > 0 \/ Coin(3)
           /\ slot' = IF ok THEN [slot EXCEPT ![s] = p] ELSE slot
           /\ Log([op |-> "aad", s |-> s, n |-> n, pos |-> o.al, ok |-> IF ok THEN 1 ELSE 0, enc |-> o.enc])
Upd(s) ==
  /\ slot[s].st = "live" /\ slot[s].bad = 0
  /\ LET o == slot[s] IN
     /\ Ready(o) \/ Coin(3)
     /\ o.enc = 1 \/ (o.al = o.da /\ o.ml < o.dm) \/ Coin(9)
     /\ \E n \in {Rnd(NextLens(o, o.ml, MRoom(o)))}, ip \in {Rnd({0, 1})} :
        LET ok == Ready(o)
            p == [o EXCEPT !.ml = @ + n, !.mch = Append(@, [id |-> Len(hist) + 1, n |-> n])]
        IN /\ n > 0 \/ Coin(3)
           /\ slot' = IF ok THEN [slot EXCEPT ![s] = p] ELSE slot
           /\ Log([op |-> "upd", s |-> s, n |-> n, pos |-> o.ml, ok |-> IF ok THEN 1 ELSE 0, inpl |-> ip, enc |-> o.enc,
                   key |-> o.key, iv |-> o.iv])

\* final: sealing gives the tag; opening accepts exactly the untouched message with its tag
Final(s) ==
  /\ slot[s].st = "live" /\ slot[s].bad = 0
  /\ LET o == slot[s]
         whole == o.al = o.da /\ o.ml = o.dm
     IN /\ o.al + o.ml > 0 \/ ~Ready(o)
        /\ Ready(o) \/ Coin(4)
        /\ o.enc = 1 \/ (whole /\ (o.tag = 1 \/ Coin(6))) \/ Coin(10)
        /\ o.tag # 2 \/ o.enc = 1
        /\ LET res == IF ~Ready(o) THEN "refused"
                      ELSE IF o.enc = 1 THEN "tag"
                      ELSE IF o.tag = 0 THEN "refused"
                      ELSE IF (whole /\ o.tamper = "none") \/ (o.tamper \in {"ctext", "aadext"} /\ o.al = o.sa /\ o.ml = o.sm)
                      THEN "ok" ELSE "reject"
           IN /\ slot' = CASE res = "refused" -> slot
                           [] res \in {"tag", "ok"} -> [slot EXCEPT ![s].ivok = 0, ![s].last = IF res = "tag" THEN Len(hist) + 1 ELSE @,
                                                                  ![s].tag = IF res = "ok" THEN 2 ELSE @]
                           [] OTHER -> [slot EXCEPT ![s].bad = 1, ![s].tag = 2]
              /\ Log([op |-> "fin", s |-> s, res |-> res, enc |-> o.enc, key |-> o.key, iv |-> o.iv, ach |-> o.ach, mch |-> o.mch])
GetTag(s) ==
  /\ slot[s].st = "live" /\ Coin(3)
  /\ LET o == slot[s]
         fresh == o.enc = 1 /\ o.ivok = 0 /\ o.last # 0
     IN /\ fresh \/ (o.last = 0 /\ o.tag = 0)
        /\ \E n \in {Rnd({B, B, B \div 2, 4, 1, B + 1, 0})} :
           Log([op |-> "gettag", s |-> s, n |-> n, from |-> o.last, ok |-> IF fresh /\ n > 0 /\ n <= B THEN 1 ELSE 0])
        /\ UNCHANGED slot
SetTag(s) ==
  /\ slot[s].st = "live" /\ slot[s].bad = 0
  /\ LET o == slot[s] IN
     /\ o.enc = 0 \/ Coin(8)
     /\ o.tag # 1 \/ Coin(8)
     /\ \E badlen \in {Rnd({0, 0, 0, 1})}, n \in {Rnd({0, B - 1, B + 1, 4})} :
        LET ok == o.enc = 0 /\ badlen = 0 IN
        /\ slot' = IF ok THEN [slot EXCEPT ![s].tag = 1] ELSE slot
        /\ Log([op |-> "settag", s |-> s, n |-> IF badlen = 1 THEN n ELSE B, ok |-> IF ok THEN 1 ELSE 0])
Copy(s) ==
  /\ slot[s].st = "live" /\ slot[s].bad = 0 /\ slot[s].kset = 1
  /\ \E t \in {Rnd(1..NSlots)} :
     /\ s # t
     /\ slot' = [slot EXCEPT ![t] = slot[s]]
     /\ Log([op |-> "copy", s |-> s, t |-> t])
Free(s) ==
  /\ slot[s].st = "live" /\ Coin(3)
  /\ slot' = [slot EXCEPT ![s] = None]
  /\ Log([op |-> "free", s |-> s])
IvLen(s) ==
  /\ slot[s].st = "live" /\ slot[s].iv = 0 /\ slot[s].key = 0
  /\ \E n \in {Rnd({B, B, 0, 1, 4, 12, 17, 24})} :
     /\ Log([op |-> "ivlen", s |-> s, n |-> n, ok |-> IF n = B THEN 1 ELSE 0])
     /\ UNCHANGED slot
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : New(s)
        \/ "reinit" \in Ops /\ \E s \in {S} : Reinit(s)
        \/ \E s \in {S} : Aad(s)
        \/ \E s \in {S} : Upd(s)
        \/ \E s \in {S} : Ready(slot[s]) /\ Upd(s)
        \/ \E s \in {S} : Final(s)
        \/ \E s \in {S} : Ready(slot[s]) /\ Final(s)
        \/ \E s \in {S} : Ready(slot[s]) /\ slot[s].enc = 0 /\ Final(s)
        \/ \E s \in {S} : slot[s].enc = 0 /\ slot[s].al = slot[s].da /\ Upd(s)
        \/ \E s \in {S} : slot[s].enc = 0 /\ slot[s].ml = 0 /\ Aad(s)
        \/ \E s \in {S} : GetTag(s)
        \/ \E s \in {S} : SetTag(s)
        \/ \E s \in {S} : slot[s].enc = 0 /\ SetTag(s)
        \/ "copy" \in Ops /\ \E s \in {S} : Copy(s)
        \/ "copy" \in Ops /\ \E s \in {S} : Free(s)
        \/ "ivlen" \in Ops /\ \E s \in {S} : IvLen(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars      \* (draw again)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* a spent nonce never becomes usable without being given again; only whole messages are accepted
Spent == \A s \in 1..NSlots : slot[s].st = "live" /\ slot[s].ivok = 1 => slot[s].iv # 0
=============================================================================

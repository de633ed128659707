----------------------------- MODULE RoundTrip -----------------------------
(* A sender encrypts a message in pieces, a receiver decrypts the ciphertext in
   pieces of its own, both on contexts that live on for the next message.
   What the receiver gets is the sender's message: nothing here refers to any
   cipher definition.  Includes every way a padded message can end wrongly.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Depth, Focus, MaxTot
VARIABLES p, hist
vars == <<p, hist>>

AlgTab == [
  g28cfb |-> [blk |-> 0, B |-> 8, S |-> 1024], g28cbc |-> [blk |-> 1, B |-> 8, S |-> 8],
  g28cnt |-> [blk |-> 0, B |-> 8, S |-> 1024], g28cn12 |-> [blk |-> 0, B |-> 8, S |-> 1024],
  mecb |-> [blk |-> 1, B |-> 8, S |-> 8], mcbc |-> [blk |-> 1, B |-> 8, S |-> 8],
  mctr |-> [blk |-> 0, B |-> 8, S |-> 8], mctra |-> [blk |-> 0, B |-> 8, S |-> 1024],
  kecb |-> [blk |-> 1, B |-> 16, S |-> 16], kcbc |-> [blk |-> 1, B |-> 16, S |-> 16],
  kcfb |-> [blk |-> 0, B |-> 16, S |-> 16], kofb |-> [blk |-> 0, B |-> 16, S |-> 16],
  kctr |-> [blk |-> 0, B |-> 16, S |-> 16], kctra |-> [blk |-> 0, B |-> 16, S |-> 4096] ]
B(q) == AlgTab[q.alg].B
Blk(q) == AlgTab[q.alg].blk = 1
Min(a, b) == IF a < b THEN a ELSE b

Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)

\* tot: message bytes; ein/eout: sender's bytes in / ciphertext bytes out; din/dout the same at the receiver
Idle == [st |-> "idle", alg |-> "", tot |-> 0, ein |-> 0, eout |-> 0, efin |-> 0, din |-> 0, dout |-> 0,
         epad |-> 1, dpad |-> 1, craft |-> 0, good |-> 1, cut |-> 0]
Init == p = Idle /\ hist = <<>>

\* what a block-mode side has handed out after n input bytes
EncOut(q, n) == IF Blk(q) THEN (n \div B(q)) * B(q) ELSE n
DecOut(q, n) == IF ~Blk(q) THEN n
                ELSE IF q.dpad = 1 /\ n > 0 /\ n % B(q) = 0 THEN n - B(q) ELSE (n \div B(q)) * B(q)
CtTot(q) == IF Blk(q) /\ q.epad = 1 THEN (q.tot \div B(q) + 1) * B(q) ELSE q.tot
Avail(q) == (IF q.efin = 1 THEN CtTot(q) - q.cut ELSE Min(q.eout, IF q.cut > 0 THEN CtTot(q) - q.cut ELSE q.eout)) - q.din

Start ==
  /\ p.st = "idle"
  /\ \E alg \in {Rnd(Focus)}, t0 \in {Rnd((0..40) \cup {Rnd(0..MaxTot), Rnd(0..MaxTot), 1023, 1024, 1025, 2048, 4096, 4097})},
        kind \in {Rnd({"plain", "plain", "plain", "nopad", "craft", "cut", "cutall"})},
        pb \in {Rnd(0..17)}, good \in {Rnd({0, 1, 1})}, c \in {Rnd(1..7)}, key \in {Rnd(1..3)}, iv \in {Rnd(1..6)} :
     LET bl == AlgTab[alg].B
         blk == AlgTab[alg].blk = 1
         k == IF blk THEN kind ELSE "plain"
         tt == Min(t0, MaxTot)
         tot == IF k = "nopad" THEN (tt \div bl) * bl ELSE IF k = "craft" THEN (tt \div bl + 1) * bl ELSE tt
         \* crafted last byte pb: 0, 1..B, B+1 are the interesting ones
         pv == IF pb <= bl + 1 THEN pb ELSE 255
         q == [Idle EXCEPT !.st = "run", !.alg = alg, !.tot = tot,
                 !.epad = IF k \in {"nopad", "craft"} THEN 0 ELSE 1, !.dpad = IF k = "nopad" THEN 0 ELSE 1,
                 !.craft = IF k = "craft" THEN pv + 1 ELSE 0, !.good = IF k = "craft" /\ pv < 2 THEN 1 ELSE good]
         cc == IF k = "cut" THEN c ELSE IF k = "cutall" THEN CtTot(q) ELSE 0
     IN /\ p' = [q EXCEPT !.cut = cc]
        /\ Log([op |-> "start", alg |-> alg, tot |-> tot, key |-> key, iv |-> iv, epad |-> q.epad, dpad |-> q.dpad,
                craft |-> q.craft, good |-> q.good])

Lens(q, pos, room) == LET b == B(q) IN
  {n \in {0, 1, b - 1, b, b + 1, b - (pos % b), 2 * b, AlgTab[q.alg].S - (pos % AlgTab[q.alg].S), Rnd(0..100), Rnd(0..2000), room} : n <= room}

EncUpd == /\ p.st = "run" /\ p.efin = 0
          /\ \E n \in {Rnd(Lens(p, p.ein, p.tot - p.ein))}, ip \in {Rnd({0, 1})} :
             LET o == EncOut(p, p.ein + n) IN
             /\ n > 0 \/ Coin(6)
             /\ p' = [p EXCEPT !.ein = @ + n, !.eout = o]
             /\ Log([op |-> "eupd", n |-> n, outl |-> o - p.eout, inpl |-> IF Blk(p) /\ p.ein % B(p) # 0 THEN 0 ELSE ip])
EncFin == /\ p.st = "run" /\ p.efin = 0 /\ p.ein = p.tot
          /\ p' = [p EXCEPT !.efin = 1, !.eout = CtTot(p)]
          /\ Log([op |-> "efin", outl |-> CtTot(p) - p.eout])
DecUpd == /\ p.st = "run"
          /\ \E n \in {Rnd(Lens(p, p.din, Avail(p)))}, ip \in {Rnd({0, 1})} :
             LET o == DecOut(p, p.din + n) IN
             /\ n > 0 \/ Coin(6)
             /\ p' = [p EXCEPT !.din = @ + n, !.dout = o]
             /\ Log([op |-> "dupd", n |-> n, outl |-> o - p.dout, inpl |-> IF Blk(p) /\ p.din > 0 THEN 0 ELSE ip])
\* the verdict at the end: the whole message came through, or the padding/length rule refuses it
DecFin == /\ p.st = "run" /\ p.efin = 1 /\ Avail(p) = 0
          /\ LET b == B(p)
                 pv == IF p.craft > 0 THEN p.craft - 1 ELSE IF Blk(p) THEN b - (p.tot % b) ELSE 0
                 ok == IF ~Blk(p) \/ p.dpad = 0 THEN p.din % b = 0 \/ ~Blk(p)
                       ELSE p.din > 0 /\ p.din % b = 0 /\ pv >= 1 /\ pv <= b /\ (p.craft = 0 \/ p.good = 1)
                 n == IF ~ok THEN 0 ELSE IF Blk(p) /\ p.dpad = 1 THEN b - pv ELSE 0
             IN Log([op |-> "dfin", ok |-> IF ok THEN 1 ELSE 0, outl |-> n])
          /\ p' = Idle
Next == Start \/ EncUpd \/ EncUpd \/ EncFin \/ DecUpd \/ DecUpd \/ DecFin
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* the receiver never has more than the sender gave, and at the end has exactly the message
Flow == p.st = "run" => /\ p.ein <= p.tot /\ p.din <= CtTot(p) /\ p.dout <= p.tot
                        /\ (p.efin = 1 /\ p.cut = 0 /\ p.craft = 0 /\ Avail(p) = 0) =>
                             (p.dout + (IF Blk(p) /\ p.dpad = 1 THEN p.tot % B(p) ELSE 0) = p.tot)
=============================================================================

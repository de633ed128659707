------------------------------ MODULE CipherApi ------------------------------
(* The EVP cipher interface of the engine as a user sees it: contexts that are
   initialised, fed in pieces, finished, copied and re-initialised.

   The abstract state of a context is only: algorithm, direction, key, IV,
   section size, padding flag and the list of input pieces of the CURRENT
   message.  What an Update must return is the slice [rel, rel+outlen) of
   Mode(alg, key, iv, sec, all input so far) -- see Modes.tla for the meaning of
   the stream modes; ECB/CBC are the textbook ones with PKCS#7 padding.
   Every behaviour is printed as JSON with the predicted result of each call and
   replayed into the real engine.                                               *)
EXTENDS Modes, FiniteSets, TLC, Json, Randomization

CONSTANTS Depth, NSlots, MaxTotal,
          Focus,      \* set of algorithm names to draw from
          Ops,        \* names of the actions that are enabled in this configuration
          MaxLen      \* largest single update drawn (besides the boundary-aimed ones)

VARIABLES slot, main, hist
vars == <<slot, main, hist>>

\* mode, block, default section, kind of meshing, iv length
AlgTab == [
  g28cfb |-> [mode |-> "cfb", B |-> 8, S |-> 1024, ivl |-> 8],
  g28cbc |-> [mode |-> "cbc", B |-> 8, S |-> 0, ivl |-> 8],
  g28cnt |-> [mode |-> "cnt", B |-> 8, S |-> 1024, ivl |-> 8],
  g28cn12 |-> [mode |-> "cnt", B |-> 8, S |-> 1024, ivl |-> 8],
  mecb |-> [mode |-> "ecb", B |-> 8, S |-> 0, ivl |-> 0],
  mcbc |-> [mode |-> "cbc", B |-> 8, S |-> 0, ivl |-> 8],
  mctr |-> [mode |-> "ctr", B |-> 8, S |-> 0, ivl |-> 4],
  mctra |-> [mode |-> "ctr", B |-> 8, S |-> 1024, ivl |-> 4],
  kecb |-> [mode |-> "ecb", B |-> 16, S |-> 0, ivl |-> 0],
  kcbc |-> [mode |-> "cbc", B |-> 16, S |-> 0, ivl |-> 16],
  kcfb |-> [mode |-> "cfb", B |-> 16, S |-> 0, ivl |-> 16],
  kofb |-> [mode |-> "ofb", B |-> 16, S |-> 0, ivl |-> 16],
  kctr |-> [mode |-> "ctr", B |-> 16, S |-> 0, ivl |-> 8],
  kctra |-> [mode |-> "ctr", B |-> 16, S |-> 4096, ivl |-> 8] ]
Algs == DOMAIN AlgTab
T(s) == AlgTab[s.alg]
IsBlock(alg) == AlgTab[alg].mode \in {"ecb", "cbc"}

Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1

None == [st |-> "none", alg |-> "none", enc |-> 0, key |-> 0, iv |-> 0, sec |-> 0, pos |-> 0, rel |-> 0,
         chain |-> <<>>, pad |-> 1, tot |-> 0, msg |-> 0, sbox |-> "", mesh |-> 0]
Init == /\ slot = [s \in 1..NSlots |-> None]
        /\ main \in Focus
        /\ hist = <<>>

Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r) /\ main' = main
Keys == 1..3
Ivs  == 1..6          \* 1-3 random, 4 all ones, 5 zero, 6 near wrap-round
                      \* 7 and more: for CNT, 16 starting values of its register close to the limits, per key

(* ---- initialise a context that is fresh (or is thrown away) ------------------ *)
New(s) ==
  \E alg \in {IF Coin(4) THEN Rnd(Focus) ELSE main}, k \in {Rnd(Keys)}, w \in {<<Rnd(Ivs), Rnd(0..15), Rnd(0..1)>>},
     e \in {Rnd({0, 1})}, how \in {Rnd({"all", "two", "keyfirst", "ivfirst"})}, msgtot \in {Rnd(0..70)} :
     LET v == IF AlgTab[alg].mode = "cnt" /\ w[3] = 0 THEN 6 + k + 3 * w[2] ELSE w[1] IN
     /\ slot[s].st # "live" \/ Coin(3)
     /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "live", !.alg = alg, !.enc = e, !.key = k,
                   !.iv = IF AlgTab[alg].mode = "ecb" THEN 0 ELSE v, !.sec = AlgTab[alg].S,
                   !.msg = Len(hist) + 1, !.tot = IF e = 0 /\ IsBlock(alg) /\ Coin(2) THEN msgtot + 1 ELSE 0]]
     /\ Log([op |-> "new", s |-> s, alg |-> alg, key |-> k, iv |-> v, enc |-> e, how |-> how])

(* ---- re-initialise for the next message; nothing of the previous one survives.
   key = 0 / iv = 0: not given, the last one given stays in force ------------------ *)
Reinit(s) ==
  \E k \in {Rnd({0, 0, 1, 2, 3})}, v \in {Rnd({0} \cup Ivs)}, chdir \in {Rnd(1..3) = 1}, again \in {Rnd({0, 1})},
     msgtot \in {Rnd(0..70)} :
     /\ slot[s].st \in {"live", "done"}
     /\ LET o == slot[s]
            e == IF chdir THEN 1 - o.enc ELSE o.enc
        IN /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.st = "live", !.enc = e,
                 !.key = IF k = 0 THEN @ ELSE k, !.iv = IF v = 0 \/ T(o).mode = "ecb" THEN @ ELSE v,
                 !.pos = 0, !.rel = 0, !.chain = <<>>, !.msg = Len(hist) + 1,
                 !.tot = IF e = 0 /\ IsBlock(o.alg) /\ Coin(2) THEN msgtot + 1 ELSE 0]]
           /\ Log([op |-> "reinit", s |-> s, alg |-> o.alg, key |-> k, iv |-> v, enc |-> IF chdir THEN e ELSE 0 - 1,
                   again |-> again, mesh |-> o.mesh])

(* ---- how many bytes a block-mode context has handed out after T input bytes --- *)
Released(s, total) ==
  IF ~IsBlock(s.alg) THEN total
  ELSE LET B == T(s).B IN
       IF s.enc = 1 \/ s.pad = 0 THEN (total \div B) * B
       ELSE IF total > 0 /\ total % B = 0 THEN total - B ELSE (total \div B) * B

\* lengths aimed at block and section boundaries as seen from the current position
LenSet(s) ==
  LET B == T(s).B
      S == IF s.sec = 0 THEN 1024 ELSE s.sec
      toB == B - (s.pos % B)
      toS == S - (s.pos % S)
  IN {0, 1, 2, B - 1, B, B + 1, toB, toB + 1, toB + B, 2 * B, 3 * B - 1, Rnd(0..(5 * B)), toS, toS - 1, toS + 1, toS + B,
      toS + S, toS + S + 3, Rnd(0..200), Rnd(0..MaxLen), S, 2 * S + 1}

CtLen(s) == ((s.tot - 1) \div T(s).B + 1) * T(s).B    \* padded ciphertext of a message of tot-1 bytes
Room(s) == IF s.tot > 0 /\ s.pad = 1 THEN CtLen(s) - s.pos ELSE MaxTotal - s.pos

Update(s) ==
  /\ slot[s].st = "live"
  /\ \E n0 \in {Rnd(LenSet(slot[s]))}, inpl \in {Rnd({0, 1})}, al \in {Rnd({0, 0, 1, 3})} :
     LET o == slot[s]
         n == Min(n0, Room(o))
         ct == o.tot > 0 /\ o.pad = 1
         c2 == Append(o.chain, [id |-> Len(hist) + 1, n |-> n, ct |-> IF ct THEN o.msg ELSE 0,
                                tot |-> IF ct THEN o.tot - 1 ELSE 0, off |-> o.pos])
         r2 == Released(o, o.pos + n)
         ip == IF inpl = 1 /\ (~IsBlock(o.alg) \/ (o.enc = 1 /\ o.pos % T(o).B = 0) \/ o.pos = 0) THEN 1 ELSE 0
     IN /\ n > 0 \/ Coin(4)
        /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.pos = @ + n, !.rel = r2, !.chain = c2]]
        /\ Log([op |-> "upd", s |-> s, n |-> n, inpl |-> ip, al |-> al, ok |-> 1, outl |-> r2 - o.rel, from |-> o.rel,
                alg |-> o.alg, mode |-> T(o).mode, B |-> T(o).B, sec |-> o.sec, enc |-> o.enc, pad |-> o.pad, key |-> o.key,
                iv |-> o.iv, sbox |-> o.sbox, chain |-> c2])

(* ---- finish.  block modes: padding is added/removed or the length must fit --- *)
Final(s) ==
  LET o == slot[s]
      B == T(o).B
      blk == IsBlock(o.alg)
      kind == IF ~blk THEN "none"
              ELSE IF o.pad = 0 THEN (IF o.pos % B = 0 THEN "none" ELSE "fail")
              ELSE IF o.enc = 1 THEN "pad"
              ELSE IF o.pos > 0 /\ o.pos % B = 0 THEN "unpad" ELSE "fail"
  IN /\ o.st = "live"
     /\ o.tot > 0 /\ o.pad = 1 => (o.pos = CtLen(o) \/ Coin(5))
     /\ slot' = [slot EXCEPT ![s].st = "done"]
     /\ Log([op |-> "fin", s |-> s, kind |-> kind, from |-> o.rel, alg |-> o.alg, mode |-> T(o).mode, B |-> B, sec |-> o.sec,
             enc |-> o.enc, pad |-> o.pad, key |-> o.key, iv |-> o.iv, sbox |-> o.sbox, chain |-> o.chain])

(* ---- the copy continues on its own -------------------------------------------- *)
Copy(s) ==
  /\ slot[s].st = "live"
  /\ \E t \in {Rnd(1..NSlots)} :
     /\ s # t
     /\ slot' = [slot EXCEPT ![t] = slot[s]]
     /\ Log([op |-> "copy", s |-> s, t |-> t])

SetPad(s) ==
  /\ slot[s].st = "live" /\ IsBlock(slot[s].alg) /\ slot[s].pos = 0
  /\ \E p \in {Rnd({0, 1})} :
     /\ slot' = [slot EXCEPT ![s].pad = p]
     /\ Log([op |-> "pad", s |-> s, v |-> p])

(* ---- section size control: only before any data, whole blocks ------------------ *)
MeshCtl(s) ==
  LET o == slot[s]
      fam == IF o.alg \in {"kctra"} THEN "k" ELSE IF o.alg \in {"mctra", "mctr"} THEN "m"
             ELSE IF o.alg \in {"g28cfb"} THEN "g" ELSE "no"
  IN /\ o.st = "live" /\ fam # "no"
     /\ \E v \in {Rnd(IF fam = "g" THEN {0, 1} ELSE IF fam = "m" THEN {8, 16, 24, 64, 256, 1024, 2048}
                                           ELSE {16, 32, 48, 256, 1024, 4096, 8192, 0, 8, 17})} :
        LET ok == CASE fam = "k" -> v # 0 /\ v % 16 = 0 [] OTHER -> o.pos = 0
        IN /\ fam = "k" => o.pos = 0
           /\ fam = "g" => o.pos = 0
           /\ o.pos = 0 \/ Coin(4)
           /\ slot' = IF ~ok THEN slot
                      ELSE [slot EXCEPT ![s].sec = IF fam = "g" THEN 1024 * v ELSE v, ![s].mesh = v + 1]
           /\ Log([op |-> "mesh", s |-> s, v |-> v, ok |-> IF ok THEN 1 ELSE 0])

(* ---- the IV as it stands: what would continue the message in another context.
   Asked at block boundaries only, not where a key change is due, and not of
   Kuznyechik's CFB, which takes over the last block when the next one begins.  *)
AskIv(s) ==
  LET o == slot[s] IN
  /\ o.st = "live" /\ T(o).mode \in {"cbc", "cfb", "ofb", "ctr"} /\ o.alg # "kcfb" /\ o.pos % T(o).B = 0
  /\ T(o).mode = "cfb" /\ o.sec # 0 => (o.pos = 0 \/ o.pos % o.sec # 0)
  /\ slot' = slot
  /\ Log([op |-> "iv", s |-> s, alg |-> o.alg, mode |-> T(o).mode, B |-> T(o).B, sec |-> o.sec, enc |-> o.enc, key |-> o.key, iv |-> o.iv,
          sbox |-> o.sbox, chain |-> o.chain, n |-> o.pos \div T(o).B])

SBoxes == {"A", "B", "C", "D", "T", "Z"}
SetSbox(s) ==
  /\ slot[s].st = "live" /\ slot[s].alg \in {"g28cfb", "g28cbc"} /\ slot[s].pos = 0
  /\ \E b \in {Rnd(SBoxes)} :
     /\ slot' = [slot EXCEPT ![s].sbox = b]
     /\ Log([op |-> "sbox", s |-> s, v |-> b])

Next == \/ "new" \in Ops /\ \E s \in {Rnd(1..NSlots)} : New(s)
        \/ "reinit" \in Ops /\ \E s \in {Rnd(1..NSlots)} : Reinit(s)
        \/ \E s \in {Rnd(1..NSlots)} : Update(s)
        \/ \E s \in {Rnd(1..NSlots)} : slot[s].alg # "none" /\ Update(s)
        \/ \E s \in {Rnd(1..NSlots)} : (slot[s].pos > 0 /\ Update(s))
        \/ \E s \in {Rnd(1..NSlots)} : Final(s)
        \/ "askiv" \in Ops /\ \E s \in {Rnd(1..NSlots)} : AskIv(s)
        \/ "copy" \in Ops /\ \E s \in {Rnd(1..NSlots)} : Copy(s)
        \/ "pad" \in Ops /\ \E s \in {Rnd(1..NSlots)} : SetPad(s)
        \/ "mesh" \in Ops /\ \E s \in {Rnd(1..NSlots)} : MeshCtl(s)
        \/ "sbox" \in Ops /\ \E s \in {Rnd(1..NSlots)} : SetSbox(s)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
\* sanity of the abstract state itself
TypeOK == \A s \in 1..NSlots : slot[s].st = "none" \/ (slot[s].rel <= slot[s].pos /\ slot[s].pos <= MaxTotal
            /\ (slot[s].sec # 0 => slot[s].sec % T(slot[s]).B = 0))
=============================================================================

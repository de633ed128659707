------------------------------ MODULE HashApi ------------------------------
(* Digest contexts as a user drives them: several contexts, each initialised for
   one of the digests, fed in pieces, finished, initialised again (also for another
   digest, also unfinished), reset, copied onto fresh and onto used contexts.
   A finished context must be initialised before it is used again.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlots, Algs, Ops, MaxLen, Blk
VARIABLES slot, hist
vars == <<slot, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Coin(n) == Rnd(1..n) = 1
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
None == [st |-> "none", alg |-> "", len |-> 0, seg |-> <<>>, pat |-> "rand"]
Init == slot = [s \in 1..NSlots |-> None] /\ hist = <<>>
Pats == {"rand", "rand2", "ff", "zero", "carry", "one", "mix"}
Start(s) ==
  \E g \in {Rnd(Algs)}, p \in {Rnd(Pats)}, same \in {Rnd({0, 0, 1})} :
    LET keep == same = 1 /\ slot[s].st # "none"
        al == IF keep THEN slot[s].alg ELSE g
    IN /\ slot[s].st # "run" \/ (Coin(3) /\ "reinit" \in Ops)
       /\ slot' = [slot EXCEPT ![s] = [None EXCEPT !.st = "run", !.alg = al, !.pat = p]]
       /\ Log([op |-> "init", s |-> s, alg |-> al, again |-> IF keep THEN 1 ELSE 0])
Update(s) ==
  /\ slot[s].st = "run"
  /\ LET o == slot[s] B == Blk IN
     \E n \in {Rnd({0, 1, B - 1, B, B + 1, B - (o.len % B), 2 * B - (o.len % B), B - (o.len % B) + 1, Rnd(0..(2 * B)), Rnd(0..(5 * B)), Rnd(0..MaxLen)})}, al \in {Rnd(0..3)} :
       /\ slot' = [slot EXCEPT ![s] = [o EXCEPT !.len = @ + n, !.seg = Append(@, <<Len(hist) + 1, n>>)]]
       /\ Log([op |-> "upd", s |-> s, n |-> n, pos |-> o.len, pat |-> o.pat, align |-> al])
Final(s) ==
  /\ slot[s].st = "run"
  /\ slot' = [slot EXCEPT ![s].st = "done"]
  /\ Log([op |-> "fin", s |-> s, alg |-> slot[s].alg, seg |-> slot[s].seg, pat |-> slot[s].pat, len |-> slot[s].len])
Copy(s) ==
  /\ slot[s].st = "run"
  /\ \E t \in {Rnd(1..NSlots)} :
       /\ s # t
       /\ slot' = [slot EXCEPT ![t] = slot[s]]
       /\ Log([op |-> "copy", s |-> s, t |-> t])
Reset(s) == /\ slot[s].st # "none" /\ Coin(2)
            /\ slot' = [slot EXCEPT ![s] = None]
            /\ \E f \in {Rnd({0, 1})} : Log([op |-> "reset", s |-> s, free |-> f])
S == Rnd(1..NSlots)
Next == \/ \E s \in {S} : Start(s)
        \/ \E s \in {S} : Update(s)
        \/ \E s \in {S} : Update(s)
        \/ \E s \in {S} : Update(s)
        \/ \E s \in {S} : Final(s)
        \/ "copy" \in Ops /\ \E s \in {S} : Copy(s)
        \/ "reset" \in Ops /\ \E s \in {S} : Reset(s)
        \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
RECURSIVE Tot(_)
Tot(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Tot(Tail(q))
Counted == \A s \in 1..NSlots : Tot(slot[s].seg) = slot[s].len
=============================================================================

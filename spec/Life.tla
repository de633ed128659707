------------------------------- MODULE Life ---------------------------------
(* The life of the loaded engine inside one process.  What keeps it alive: the list of
   engines, the program's structural and functional references, the default tables,
   contexts and keys.  When the last of these goes the engine is destroyed, its names
   disappear and it can be loaded again; while it lives a second load is refused.
   Predicted: the verdict of every call, what can be found, and - since contexts carry
   their data - that work begun before references were dropped ends with the right value.

   The program unregisters the engine before it lets the last reference go (Unreg); what
   happens otherwise is the known finding "stale-tables".                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NCtx, NKeys, Kinds
VARIABLES l, ctxs, keys, hist
vars == <<l, ctxs, keys, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Pick(q, x) == q[1 + (x % Len(q))]

Off == [up |-> FALSE, list |-> FALSE, str |-> 0, fun |-> 0, reg |-> FALSE, def |-> FALSE, pin |-> FALSE, gen |-> 0]
NoCtx == [k |-> "", n |-> 0, key |-> 0]
NoKey == [t |-> "", cv |-> ""]
Handle == l.str + l.fun > 0
\* somebody still holds the engine
Held(x, cs, ks) == x.list \/ x.str + x.fun > 0 \/ x.def \/ x.pin \/ (\E c \in DOMAIN cs : cs[c].k # "") \/ (\E k \in DOMAIN ks : ks[k].t # "")
\* after a release: still there, or destroyed - and then nothing may be registered any more
Settle(x, cs, ks) == IF Held(x, cs, ks) THEN x ELSE [Off EXCEPT !.gen = x.gen]
MayDrop(x, cs, ks) == Held(x, cs, ks) \/ ~x.reg
Init == l = Off /\ ctxs = [c \in 1..NCtx |-> NoCtx] /\ keys = [k \in 1..NKeys |-> NoKey] /\ hist = <<>>

Load ==
  LET ok == ~l.up IN
  /\ l' = IF ok THEN [Off EXCEPT !.up = TRUE, !.list = TRUE, !.str = 1, !.reg = TRUE, !.gen = l.gen + 1] ELSE l
  /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "load", ok |-> B2N(ok)])
ById ==
  /\ l' = IF l.list THEN [l EXCEPT !.str = @ + 1] ELSE l
  /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "byid", ok |-> B2N(l.list)])
Up == /\ Handle /\ l.fun < 3 /\ l' = [l EXCEPT !.fun = @ + 1] /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "init"])
Release(x, cs, ks, op) ==
  /\ MayDrop(x, cs, ks) /\ l' = Settle(x, cs, ks) /\ ctxs' = cs /\ keys' = ks
  /\ Log(op @@ [gone |-> B2N(~Held(x, cs, ks))])
Finish == l.fun > 0 /\ Release([l EXCEPT !.fun = @ - 1], ctxs, keys, [op |-> "finish"])
Free == l.str > 0 /\ Release([l EXCEPT !.str = @ - 1], ctxs, keys, [op |-> "free"])
Remove == Handle /\ l.list /\ Release([l EXCEPT !.list = FALSE], ctxs, keys, [op |-> "remove"])
Add == Handle /\ ~l.list /\ l' = [l EXCEPT !.list = TRUE] /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "add"])
SetDef == Handle /\ l' = [l EXCEPT !.def = TRUE, !.reg = TRUE] /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "setdef"])
Unreg == Handle /\ l' = [l EXCEPT !.def = FALSE, !.pin = FALSE, !.reg = FALSE] /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "unreg"])
\* what the engine says it offers
Offer == Handle /\ UNCHANGED <<l, ctxs, keys>> /\ Log([op |-> "offer"])
\* by name, without naming the engine: found exactly while it lives; using it pins it
Named(k) ==
  /\ l' = IF l.up /\ l.reg THEN [l EXCEPT !.pin = TRUE] ELSE l
  /\ UNCHANGED <<ctxs, keys>>
  /\ Log([op |-> "named", k |-> k, found |-> B2N(l.up)])
NamedKey == /\ l' = IF l.up /\ l.reg THEN [l EXCEPT !.pin = TRUE] ELSE l
            /\ UNCHANGED <<ctxs, keys>> /\ Log([op |-> "namedkey", found |-> B2N(l.up /\ l.reg)])
Open(c, k) == /\ Handle /\ ctxs[c].k = "" /\ ctxs' = [ctxs EXCEPT ![c] = [k |-> k, n |-> 0, key |-> Len(hist)]] /\ UNCHANGED <<l, keys>>
              /\ Log([op |-> "open", c |-> c, k |-> k])
Feed(c, n) == /\ ctxs[c].k # "" /\ ctxs' = [ctxs EXCEPT ![c].n = @ + n] /\ UNCHANGED <<l, keys>> /\ Log([op |-> "feed", c |-> c, n |-> n])
Close(c) == ctxs[c].k # "" /\ Release(l, [ctxs EXCEPT ![c] = NoCtx], keys, [op |-> "close", c |-> c, k |-> ctxs[c].k, n |-> ctxs[c].n])
\* a copy of a context holds the engine as well
Copy(c, d) == /\ c # d /\ ctxs[c].k # "" /\ ctxs[d].k = "" /\ ctxs' = [ctxs EXCEPT ![d] = ctxs[c]] /\ UNCHANGED <<l, keys>> /\ Log([op |-> "copy", c |-> c, d |-> d])
Gen(k, t, cv) == /\ Handle /\ l.def /\ keys[k].t = "" /\ keys' = [keys EXCEPT ![k] = [t |-> t, cv |-> cv]] /\ UNCHANGED <<l, ctxs>>
                 /\ Log([op |-> "gen", i |-> k, t |-> t, cv |-> cv])
Sign(k) == l.def /\ keys[k].t # "" /\ UNCHANGED <<l, ctxs, keys>> /\ Log([op |-> "sign", i |-> k, t |-> keys[k].t, cv |-> keys[k].cv])
Drop(k) == keys[k].t # "" /\ Release(l, ctxs, [keys EXCEPT ![k] = NoKey], [op |-> "drop", i |-> k])
\* let everything go in one sweep and look around
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
Lens == <<0, 1, 7, 8, 16, 31, 64, 100, 1000, 1024, 1500>>
KindSeq == LET RECURSIVE F(_) F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o F(S \ {x}) IN F(Kinds)
KeySeq == <<<<"g256", "A">>, <<"g256", "TCA">>, <<"g512", "512A">>, <<"g512", "512C">>, <<"g01", "XA">>, <<"g256", "TCB">>, <<"g256", "B">>>>
Next ==
  \/ ~l.up /\ Load
  \/ ~l.up /\ Load
  \/ l.up /\ Len(hist) % 3 = 0 /\ Load
  \/ ById \/ Up \/ Finish \/ Free \/ Remove \/ Add \/ SetDef \/ Unreg \/ Offer
  \/ Finish \/ Free \/ Remove \/ Unreg
  \/ (~l.reg /\ l.up /\ (Finish \/ Free \/ Remove))
  \/ (~l.reg /\ l.up /\ (Finish \/ Free \/ Remove))
  \/ \E c \in 1..NCtx : ~l.reg /\ l.up /\ Close(c)
  \/ \E k \in 1..NKeys : ~l.reg /\ l.up /\ Drop(k)
  \/ \E k \in 1..NKeys : Sign(k)
  \/ ~l.list /\ l.up /\ Finish
  \/ ~l.list /\ l.up /\ Free
  \/ \E w \in W : Named(Pick(KindSeq, w[1])) /\ (l.up => w[2] % 3 = 0)
  \/ NamedKey /\ (l.up => Len(hist) % 4 = 0)
  \/ \E c \in {Rnd(1..NCtx)}, w \in W : Open(c, Pick(KindSeq, w[1]))
  \/ \E c \in {Rnd(1..NCtx)}, w \in W : Feed(c, Pick(Lens, w[1]))
  \/ \E c \in {Rnd(1..NCtx)} : Close(c)
  \/ \E c \in {Rnd(1..NCtx)} : ~l.list /\ Close(c)
  \/ \E c \in {Rnd(1..NCtx)}, d \in {Rnd(1..NCtx)} : Copy(c, d)
  \/ \E k \in 1..NKeys, w \in W : LET x == Pick(KeySeq, w[1]) IN Gen(k, x[1], x[2])
  \/ \E k \in {Rnd(1..NKeys)} : Sign(k)
  \/ \E k \in {Rnd(1..NKeys)} : Drop(k)
  \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
\* the engine is up exactly while somebody holds it, and nothing is left behind when it goes
Alive == l.up = Held(l, ctxs, keys)
Clean == ~l.up => ~l.reg /\ ~l.def /\ ~l.list
=============================================================================

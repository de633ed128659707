----------------------------- MODULE ParamNames -----------------------------
(* Naming the parameter set of a key to be generated.  A context has the set last
   accepted (or that of the key it was made from); names that are no names for it are
   refused and leave it as it was.  Generation gives a key of exactly that set, or
   fails when there is none.  Predicted: every verdict, the set of every key.

   Mode "sweep" goes through every name of the table on every kind of context once
   (exhaustively, in TLC's breadth-first search); mode "walk" draws histories.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, NSlots, Mode
VARIABLES ctx, keys, hist
vars == <<ctx, keys, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Pick(q, x) == q[1 + (x % Len(q))]

Types == {"g01", "g01dh", "g256", "g512"}
CP == {"A", "B", "C", "XA", "XB", "test"}
TC == {"TCA", "TCB", "TCC", "TCD"}
Big == {"512A", "512B", "512C", "512test"}
Curves == CP \cup TC \cup Big
Fits(t, cv) == IF t = "g512" THEN cv \in Big ELSE cv \in CP \cup TC
\* which names are specified for a type; the TC26 sets are documented for gost2012_256 only
Specified(t, cv) == ~(t \in {"g01", "g01dh"} /\ cv \in TC)
Letters(t) == CASE t = "g512" -> {"512A", "512B", "512C"} [] t = "g256" -> CP \cup TC [] OTHER -> CP
Same(a, b) == LET g(c) == CASE c = "TCB" -> "A" [] c = "TCC" -> "B" [] c = "TCD" -> "C" [] OTHER -> c IN a = b \/ g(a) = g(b)

\* names: <<form, set, spelling>>
Names(t) == {<<"letter", cv, x>> : cv \in Letters(t), x \in {"upper", "lower", "mixed"}}
            \cup {<<f, cv, "">> : f \in {"sn", "ln", "oid", "nid"}, cv \in {c \in Curves : Specified(t, c)}}
\* no names for anybody; the harness spells them
Junk == {"empty", "D", "1", "a0", "XC", "X", "XAB", "TCE", "TC", "TCAA", "AA", "sbox", "digest", "unknownoid", "nextoid", "arc", "space", "spaceafter", "high", "hex", "prime256v1", "long",
         "othercmd", "at", "512A", "negative"}
\* names for the other size
Wrong(t) == IF t = "g512" THEN {"0", "XA", "TCA", "TCD", "XB"} ELSE {}
Bad(t) == {<<"junk", j, "">> : j \in Junk} \cup {<<"wrong", w, x>> : w \in Wrong(t), x \in {"upper", "lower"}}
            \cup {<<"nid", n, "">> : n \in {"undef", "negative", "sbox", "huge", "algorithm"}}
Cands(t) == Names(t) \cup Bad(t)
Accept(t, nm) == nm \in Names(t) /\ Fits(t, nm[2])

NoCtx == [st |-> "none", t |-> "", cv |-> "", how |-> ""]
Init == ctx = [s \in 1..NSlots |-> NoCtx] /\ keys = <<>> /\ hist = <<>>
\* a context of a type, or made from a key; perhaps as a copy of the one first made
New(s, t, how, dup) ==
  /\ ctx' = [ctx EXCEPT ![s] = [st |-> "open", t |-> t, cv |-> "", how |-> how]]
  /\ UNCHANGED keys
  /\ Log([op |-> "new", s |-> s, t |-> t, how |-> how, from |-> 0, dup |-> dup])
From(s, k, how, dup) ==
  /\ ctx' = [ctx EXCEPT ![s] = [st |-> "open", t |-> keys[k].t, cv |-> keys[k].cv, how |-> how]]
  /\ UNCHANGED keys
  /\ Log([op |-> "new", s |-> s, t |-> keys[k].t, how |-> how, from |-> k, dup |-> dup])
\* numeric ids: whether the control refuses or the generation does is the engine's choice, but nothing
\* else may be selected: "bad" stands for "refused, or nothing can be generated"
Name(s, nm) ==
  LET c == ctx[s] ok == Accept(c.t, nm) num == nm[1] = "nid" IN
  /\ ctx' = [ctx EXCEPT ![s].cv = IF ok THEN nm[2] ELSE IF num THEN "bad" ELSE c.cv]
  /\ UNCHANGED keys
  /\ Log([op |-> "name", s |-> s, t |-> c.t, form |-> nm[1], cv |-> nm[2], sp |-> nm[3], ok |-> IF ok THEN 1 ELSE IF num THEN 2 ELSE 0, prev |-> c.cv])
Gen(s) ==
  LET c == ctx[s] ok == c.cv \notin {"", "bad"} IN
  /\ keys' = IF ok THEN Append(keys, [t |-> c.t, cv |-> c.cv, par |-> c.how = "param"]) ELSE keys
  /\ UNCHANGED ctx
  /\ Log([op |-> "gen", s |-> s, t |-> c.t, how |-> c.how, cv |-> c.cv, ok |-> B2N(ok)])
Cmp(i, j) ==
  /\ UNCHANGED <<ctx, keys>>
  /\ LET a == keys[i] b == keys[j] IN
     Log([op |-> "cmp", i |-> i, j |-> j, par |-> B2N(a.t = b.t /\ a.cv = b.cv), eq |-> B2N(i = j /\ ~a.par), same |-> B2N(i = j)])
Work(i) == /\ ~keys[i].par /\ UNCHANGED <<ctx, keys>> /\ Log([op |-> "work", k |-> i, t |-> keys[i].t, cv |-> keys[i].cv])

(* ---- sweep: new, name, generate; then a good name, a bad one, generate *)
Sweep ==
  \/ \E t \in Types, h \in {"key", "param"} : hist = <<>> /\ New(1, t, h, FALSE)
  \/ \E t \in Types : Len(hist) = 1 /\ ctx[1].t = t /\ \E nm \in Cands(t) : Name(1, nm)
  \/ Len(hist) = 2 /\ Gen(1)
  \/ Len(hist) = 3 /\ (\E cv \in {IF ctx[1].t = "g512" THEN "512B" ELSE "XB"} : Name(1, <<"letter", cv, "lower">>))
  \/ Len(hist) = 4 /\ (\E e \in {hist[2]} : Name(1, <<e.form, e.cv, e.sp>>))
  \/ Len(hist) = 5 /\ ctx[1].cv # "bad" /\ Gen(1)
  \/ Len(hist) = 5 /\ ctx[1].cv = "bad" /\ Name(1, <<"oid", IF ctx[1].t = "g512" THEN "512C" ELSE "A", "">>)
  \/ Len(hist) = 6 /\ Gen(1)
(* ---- walk *)
S == Rnd(1..NSlots)
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
TypeSeq == <<"g01", "g01dh", "g256", "g256", "g512", "g512">>
Draw(t, w) == LET good == SetToSeq({n \in Names(t) : Fits(t, n[2])}) other == SetToSeq(Cands(t) \ {n \in Names(t) : Fits(t, n[2])})
              IN IF w[1] % 3 # 0 THEN Pick(good, w[2]) ELSE Pick(other, w[3])
Walk ==
  \/ \E s \in {S}, w \in W : New(s, Pick(TypeSeq, w[1]), IF w[2] % 3 = 0 THEN "param" ELSE "key", w[3] % 3 = 0)
  \/ \E s \in {S}, w \in W : keys # <<>> /\ From(s, 1 + (w[1] % Len(keys)), IF w[2] % 4 = 0 THEN "param" ELSE "key", w[3] % 3 = 0)
  \/ \E s \in {S}, w \in W : ctx[s].st = "open" /\ Name(s, Draw(ctx[s].t, w))
  \/ \E s \in {S}, w \in W : ctx[s].st = "open" /\ Name(s, Draw(ctx[s].t, w))
  \/ \E s \in {S}, w \in W : ctx[s].st = "open" /\ Name(s, Draw(ctx[s].t, w))
  \/ \E s \in {S} : ctx[s].st = "open" /\ Gen(s)
  \/ \E s \in {S} : ctx[s].st = "open" /\ Gen(s)
  \/ \E w \in W : keys # <<>> /\ Cmp(1 + (w[1] % Len(keys)), 1 + (w[2] % Len(keys)))
  \/ \E w \in W : keys # <<>> /\ Cmp(1 + (w[1] % Len(keys)), Len(keys))
  \/ \E w \in W : keys # <<>> /\ Work(1 + (w[1] % Len(keys)))
  \/ Len(hist) < Depth /\ UNCHANGED vars
Next == IF Mode = "sweep" THEN Sweep ELSE Walk
Done == IF Mode = "sweep" THEN Len(hist) = (IF Len(hist) > 5 /\ hist[6].op = "gen" THEN 6 ELSE 7) ELSE Len(hist) = Depth
Emit == IF Done THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
\* no context ever works with a set of another size, and keys have sets that fit their type
FitsOnly == /\ \A s \in 1..NSlots : ctx[s].cv \in {"", "bad"} \/ Fits(ctx[s].t, ctx[s].cv)
            /\ \A k \in 1..Len(keys) : Fits(keys[k].t, keys[k].cv)
\* a name selects one set only, and the same one for every type that accepts it
OneSet == \A t \in Types : \A a \in Names(t), b \in Names(t) : (a[1] = b[1] /\ a[1] # "letter" /\ a[2] = b[2]) => a = b
=============================================================================

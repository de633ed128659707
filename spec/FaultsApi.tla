------------------------------ MODULE FaultsApi ------------------------------
(* What a program sees when an allocation or a request for random numbers fails somewhere inside an operation.  Every
   operation on keys and contexts may be struck (kind and position of the fault are drawn; a position behind the last
   allocation strikes nothing).  The law is one line: a struck operation is refused or right, and nothing else changes - so
   the model's state after it is that of the operation repeated with nothing failing, whatever was struck before; right
   means what comes with the same random numbers.  A context that was struck while it took data is lost, one that was
   struck while being copied from is not. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Depth, G01, G256, G512, Digests, Macs, Ciphers, Wraps, What, MaxAt, Slots, Ctxs, Interfaces

VARIABLES keys,   \* slot -> nothing or [k, priv]
          ctxs,   \* slot -> nothing or [fam, alg, fed, lost]
          sigs,   \* signatures made: [k, m]
          msgs,   \* key transports made: [k, kind]
          born, hist

vars == <<keys, ctxs, sigs, msgs, born, hist>>

Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})

NoKey == [k |-> <<"none", "", "">>, priv |-> FALSE]
NoCtx == [fam |-> "none", alg |-> "", lost |-> 1]

Init == keys = [s \in Slots |-> NoKey] /\ ctxs = [c \in Ctxs |-> NoCtx] /\ sigs = <<>> /\ msgs = <<>> /\ born = 0 /\ hist = <<>>

Log(o) == Len(hist) < Depth /\ hist' = Append(hist, o)

Curves(a) == CASE a = "g01" -> G01 [] a = "g256" -> G256 [] OTHER -> G512

\* ciphers that open only what came with its parameters: here they seal
SealOnly == {"magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac"}

\* a fault: none (twice as likely as at random), memory, random source
Faults == {[kind |-> "mem", at |-> n] : n \in 1..MaxAt} \cup {[kind |-> "rng", at |-> n] : n \in 1..2} \cup {[kind |-> "none", at |-> n] : n \in 1..10}

Kinds(a) == IF a = "g01" THEN {"g89"} ELSE {"g89", "m", "k"}

Make == \E s \in {Rnd(Slots)}, a \in {Rnd({"g01", "g256", "g512"})}, via \in {Rnd({"gen", "readpub", "readpriv", "genfrom"})}, f \in {Rnd(Faults)}, n \in {Rnd(1..3)} :
          \E cv \in {Rnd(Curves(a))} :
            LET k == <<a, cv, IF via \in {"gen", "genfrom"} THEN "n" \o ToString(born) ELSE "r" \o ToString(n)>>
            IN /\ keys' = [keys EXCEPT ![s] = [k |-> k, priv |-> via # "readpub"]]
               /\ born' = born + 1
               /\ Log([op |-> "make", s |-> s, key |-> k, via |-> via, f |-> f])
               /\ UNCHANGED <<ctxs, sigs, msgs>>

Held == {s \in Slots : keys[s] # NoKey}
Priv == {s \in Held : keys[s].priv}

Sign == /\ Priv # {} /\ Len(sigs) < 12
        /\ \E s \in {Rnd(Priv)}, m \in {Rnd(1..5)}, f \in {Rnd(Faults)} :
             /\ sigs' = Append(sigs, [k |-> keys[s].k, m |-> m])
             /\ Log([op |-> "sign", s |-> s, m |-> m, f |-> f])
             /\ UNCHANGED <<keys, ctxs, msgs, born>>

Verify == /\ Held # {} /\ sigs # <<>>
          /\ \E s \in {Rnd(Held)}, g \in {Rnd(1..Len(sigs))}, m \in {Rnd(1..5)}, bad \in {Rnd({0, 0, 1})}, f \in {Rnd(Faults)}, own \in {Rnd(1..3)} :
               \E t \in {IF own = 1 THEN s ELSE IF {x \in Held : keys[x].k = sigs[g].k} # {} THEN Rnd({x \in Held : keys[x].k = sigs[g].k}) ELSE s} :
                 \E mm \in {IF own = 2 THEN m ELSE sigs[g].m} :
                   /\ keys[t].k[1] = sigs[g].k[1]
                   /\ Log([op |-> "verify", s |-> t, g |-> g, m |-> mm, bad |-> bad, f |-> f,
                           ok |-> IF bad = 0 /\ keys[t].k = sigs[g].k /\ mm = sigs[g].m THEN 1 ELSE 0])
                   /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

Enc == /\ Held # {} /\ Len(msgs) < 12
       /\ \E s \in {Rnd(Held)}, f \in {Rnd(Faults)} :
            \E kd \in {Rnd(Kinds(keys[s].k[1]))} :
              /\ msgs' = Append(msgs, [k |-> keys[s].k, kind |-> kd])
              /\ Log([op |-> "enc", s |-> s, kind |-> kd, f |-> f])
              /\ UNCHANGED <<keys, ctxs, sigs, born>>

Dec == /\ msgs # <<>>
       /\ \E g \in {Rnd(1..Len(msgs))}, bad \in {Rnd({0, 0, 1})}, f \in {Rnd(Faults)} :
            /\ {x \in Priv : keys[x].k = msgs[g].k} # {}
            /\ \E s \in {Rnd({x \in Priv : keys[x].k = msgs[g].k})} :
                 /\ Log([op |-> "dec", s |-> s, g |-> g, kind |-> msgs[g].kind, bad |-> bad, f |-> f])
                 /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

Derive == /\ Priv # {}
          /\ \E s \in {Rnd(Priv)}, f \in {Rnd(Faults)}, u \in {Rnd({8, 32})} :
               \E t \in {Rnd({x \in Held : keys[x].k[1] = keys[s].k[1] /\ keys[x].k[2] = keys[s].k[2]})} :
                 /\ Log([op |-> "derive", s |-> s, t |-> t, u |-> u, f |-> f])
                 /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

Write == /\ Held # {}
         /\ \E s \in {Rnd(Held)}, w \in {Rnd({"pub", "priv", "print", "params", "eq", "dup"})}, f \in {Rnd(Faults)} :
              /\ (w = "priv") => keys[s].priv
              /\ Log([op |-> "write", s |-> s, w |-> w, f |-> f])
              /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

\* ------------------------------------------------------------------ contexts
Of(f) == CASE f = "cipher" -> Ciphers [] f = "mac" -> Macs [] OTHER -> Digests
Fams == {x \in {"cipher", "mac", "digest"} : Of(x) # {}}

Open == \E c \in {Rnd(Ctxs)}, fam \in {Rnd(Fams)}, f \in {Rnd(Faults)}, k \in {Rnd(1..3)}, fresh \in {Rnd({0, 1})}, en \in {Rnd({0, 1})} :
          \E g \in {Rnd(Of(fam))} :
            /\ ctxs' = [ctxs EXCEPT ![c] = [fam |-> fam, alg |-> g, lost |-> 0]]
            /\ Log([op |-> "open", c |-> c, fam |-> fam, alg |-> g, key |-> k, enc |-> IF g \in SealOnly THEN 1 ELSE en, fresh |-> fresh, f |-> f])
            /\ UNCHANGED <<keys, sigs, msgs, born>>

Good == {c \in Ctxs : ctxs[c].lost = 0}

Feed == /\ Good # {}
        /\ \E c \in {Rnd(Good)}, n \in {Rnd({0, 1, 7, 8, 16, 33, 64, 1000, 1024, 5000})}, f \in {Rnd({[kind |-> "none", at |-> 1], [kind |-> "none", at |-> 2], [kind |-> "mem", at |-> 1], [kind |-> "mem", at |-> 2]})} :
             /\ ctxs' = IF f.kind = "none" THEN ctxs ELSE [ctxs EXCEPT ![c].lost = 1]
             /\ Log([op |-> "feed", c |-> c, n |-> n, f |-> f])
             /\ UNCHANGED <<keys, sigs, msgs, born>>

Copy == /\ Good # {}
        /\ \E c \in {Rnd(Good)}, d \in {Rnd(Ctxs)}, f \in {Rnd(Faults)} :
             /\ c # d
             /\ ctxs' = [ctxs EXCEPT ![d] = ctxs[c]]
             /\ Log([op |-> "copy", c |-> c, d |-> d, f |-> f])
             /\ UNCHANGED <<keys, sigs, msgs, born>>

\* the result of a context goes to nobody else: the context is gone afterwards
Finish == /\ Good # {}
          /\ \E c \in {Rnd(Good)}, f \in {Rnd(Faults)} :
               /\ ctxs' = [ctxs EXCEPT ![c] = NoCtx]
               /\ Log([op |-> "finish", c |-> c, f |-> f])
               /\ UNCHANGED <<keys, sigs, msgs, born>>

\* key wrapping ciphers: one call does it all
Wrap == /\ Wraps # {}
        /\ \E g \in {Rnd(Wraps)}, k \in {Rnd(1..3)}, f \in {Rnd(Faults)}, u \in {Rnd({0, 1})} :
             /\ Log([op |-> "wrap", alg |-> g, key |-> k, unwrap |-> u, f |-> f])
             /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

Stop == Len(hist) >= Depth /\ UNCHANGED vars

Next == \/ (What = "keys") /\ (Make \/ Sign \/ Verify \/ Enc \/ Dec \/ Derive \/ Write)
        \/ (What = "ctxs") /\ (Open \/ Feed \/ Copy \/ Finish \/ Wrap)
        \/ Stop

\* ------------------------------------------------------------- every position
(* One operation, struck at its first, second, third ... allocation or random number until it is struck no more. *)
Sweeps ==
  LET KO(a) == {<<a, cv, "r1">> : cv \in Curves(a)}
      AllK == KO("g01") \cup KO("g256") \cup KO("g512")
      F(kind) == [kind |-> kind, at |-> 0]
      Acts == {<<"gen">>, <<"genfrom">>, <<"readpub">>, <<"readpriv">>, <<"sign">>, <<"verify", 0>>, <<"verify", 1>>, <<"derive", 8>>, <<"derive", 32>>,
               <<"pub">>, <<"priv">>, <<"print">>, <<"params">>, <<"eq">>, <<"dup">>}
              \cup {<<"enc", kd>> : kd \in {"g89", "m", "k"}} \cup {<<"dec", kd, b>> : kd \in {"g89", "m", "k"}, b \in {0, 1}}
  IN {[on |-> "key", key |-> k, act |-> x, f |-> F(g)] : k \in {y \in AllK : "keys" \in Interfaces}, x \in Acts, g \in {"mem", "rng"}}
     \cup UNION {{[on |-> "ctx", fam |-> fam, alg |-> al, at |-> w, enc |-> en, f |-> F(g)] :
             al \in Of(fam), w \in {"open", "reopen", "copy", "recopy", "feed", "finish"}, en \in {0, 1}, g \in {"mem", "rng"}} : fam \in Fams}
     \cup {[on |-> "wrap", alg |-> al, unwrap |-> u, f |-> F(g)] : al \in Wraps, u \in {0, 1}, g \in {"mem", "rng"}}
     \cup {[on |-> "load", how |-> h, f |-> F("mem")] : h \in {y \in {"bind"} : "load" \in Interfaces}}

Fits(o) == CASE o.on = "key" -> IF o.act[1] \in {"enc", "dec"} THEN o.act[2] \in Kinds(o.key[1]) ELSE TRUE
             [] o.on = "ctx" -> (o.enc = 1 \/ (o.fam = "cipher" /\ o.alg \notin SealOnly))
             [] OTHER -> TRUE

NextS == /\ hist = <<>>
         /\ \E o \in Sweeps : Fits(o) /\ hist' = <<o>>
         /\ UNCHANGED <<keys, ctxs, sigs, msgs, born>>

\* ---------------------------------------------------------------- invariants
\* nothing that was struck leaves a trace: slots hold whole objects or nothing, messages and signatures belong to keys that were made
WholeObjects == /\ \A s \in Slots : keys[s] = NoKey \/ keys[s].k[1] \in {"g01", "g256", "g512"}
                /\ \A c \in Ctxs : ctxs[c] = NoCtx \/ ctxs[c].fam \in {"cipher", "mac", "digest"}
                /\ \A i \in 1..Len(msgs) : msgs[i].kind \in Kinds(msgs[i].k[1])
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
EmitS == IF Len(hist) = 1 THEN PrintT("@@" \o ToJson(hist[1])) ELSE TRUE
=============================================================================

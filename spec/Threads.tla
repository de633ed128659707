------------------------------ MODULE Threads ------------------------------
(* Threads that use the engine side by side.  A behaviour is a set-up (environment), a
   program per thread - create a key, decode one, sign, write a key out, open a cipher,
   ask for the PBE digest - and a schedule: who goes on for how many steps.  Whatever
   the schedule, every call gives what it gives alone: the key has the parameter set asked
   for, signatures are right, contexts use the set of the environment.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NT, MaxOps, MaxSteps, Fraction
VARIABLES env, prog, sched, ran, hist
vars == <<env, prog, sched, ran, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Pick(q, x) == q[1 + (x % Len(q))]
Threads == 1..NT

\* algorithm and parameter set; sets under two names come first
KeySeq == <<<<"g01", "A">>, <<"g256", "TCB">>, <<"g256", "A">>, <<"g256", "TCC">>, <<"g256", "B">>, <<"g01", "B">>, <<"g256", "TCD">>, <<"g01", "C">>, <<"g256", "C">>, <<"g01", "XA">>, <<"g256", "XA">>,
            <<"g256", "TCA">>, <<"g512", "512A">>, <<"g512", "512B">>, <<"g512", "512C">>>>
\* which entry of the table a set's name leads to
Entry(cv) == CASE cv = "TCB" -> "A" [] cv = "TCC" -> "B" [] cv = "TCD" -> "C" [] cv = "XA" -> "A" [] OTHER -> cv
KeyKinds == <<"gen", "dec", "decpriv", "gen", "write", "trans">>
\* contexts of the thread's own
Streams == <<"md94", "md256", "md512", "kcbc", "kctr", "mctr", "kmgm", "kofb">>
Macs == <<"gmac", "gmac12", "mmac", "kmac", "kacpkm">>
Derives == <<"treek", "treem", "kdf", "expm", "expk", "cpwrap">>
Crypts == <<"g28cnt", "g28cn12", "mecb", "mcbc", "kecb", "kcbc", "kcfb">>
KeyOp(kind, k) == [kind |-> kind, t |-> k[1], cv |-> k[2]]
Envs == [crypt : {"", "A", "B", "Z"}, pbe : {"", "256", "94"}, fmt : {"", "wrap"}]
\* what a call must come to
SetAsked(e) == IF e.crypt = "" THEN "Z" ELSE e.crypt
PbeAsked(e) == IF e.pbe = "" THEN "512" ELSE e.pbe
FmtAsked(e) == IF e.fmt = "" THEN "raw" ELSE e.fmt
Told(e, o) == CASE o.kind = "cipher" -> [kind |-> "cipher", is |-> SetAsked(e), alg |-> o.alg]
                [] o.kind = "pbe" -> [kind |-> "pbe", is |-> PbeAsked(e)]
                [] o.kind = "write" -> [kind |-> "write", t |-> o.t, cv |-> o.cv, is |-> FmtAsked(e)]
                [] OTHER -> o

Init == env = [crypt |-> "", pbe |-> "", fmt |-> ""] /\ prog = [t \in Threads |-> <<>>] /\ sched = <<>> /\ ran = FALSE /\ hist = <<>>
SetEnv(e) == ~ran /\ sched = <<>> /\ (\A t \in Threads : prog[t] = <<>>) /\ hist = <<>> /\ env' = e /\ UNCHANGED <<prog, sched, ran>> /\ Log([op |-> "env", env |-> e])
Add(t, o) == /\ ~ran /\ sched = <<>> /\ Len(prog[t]) < MaxOps /\ prog' = [prog EXCEPT ![t] = Append(@, o)] /\ UNCHANGED <<env, sched, ran>>
             /\ Log([op |-> "add", th |-> t, do |-> Told(env, o)])
Go(t, n) == /\ ~ran /\ (\A u \in Threads : prog[u] # <<>>) /\ (sched # <<>> => sched[Len(sched)] # t) /\ sched' = Append(sched, t) /\ UNCHANGED <<env, prog, ran>>
            /\ Log([op |-> "go", th |-> t, n |-> n])
Run == ~ran /\ Len(sched) >= 2 /\ ran' = TRUE /\ UNCHANGED <<env, prog, sched>> /\ Log([op |-> "run"])
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
Next ==
  \/ \E w \in W : SetEnv([crypt |-> Pick(<<"", "A", "B", "Z">>, w[1]), pbe |-> Pick(<<"", "256", "94">>, w[2]), fmt |-> Pick(<<"", "wrap">>, w[3])])
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, KeyOp(Pick(KeyKinds, w[1]), Pick(KeySeq, w[2])))
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, KeyOp(Pick(KeyKinds, w[1]), Pick(KeySeq, (w[2] % 6))))
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, [kind |-> "cipher", alg |-> Pick(<<"gost89", "gost89-cbc">>, w[1])])
  \/ \E t \in {Rnd(Threads)} : Add(t, [kind |-> "pbe"])
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, [kind |-> "stream", k |-> Pick(Streams, w[1])])
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, [kind |-> Pick(<<"ssign", "strans">>, w[1]), t |-> Pick(<<"g256", "g512">>, w[2]), cv |-> Pick(<<"TCA", "512A">>, w[2])])
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, [kind |-> "mac", k |-> Pick(Macs, w[1])])
  \/ \E t \in {Rnd(Threads)}, w \in W : Add(t, IF w[2] % 2 = 0 THEN [kind |-> "derive", k |-> Pick(Derives, w[1])] ELSE [kind |-> "crypt", k |-> Pick(Crypts, w[1])])
  \/ \E t \in {Rnd(Threads)}, w \in W : Go(t, 1 + (w[1] % MaxSteps))
  \/ \E t \in {Rnd(Threads)}, w \in W : Go(t, 1 + (w[1] % MaxSteps))
  \/ \E t \in {Rnd(Threads)}, w \in W : Go(t, 1 + (w[1] % 3))
  \/ Run
  \/ Len(hist) < Depth /\ UNCHANGED vars
\* every thread has its program before anybody runs
Whole == sched # <<>> => \A t \in Threads : prog[t] # <<>>
Emit == ran => PrintT("@@" \o ToJson(hist))

\* ---------------------------------------------- all pairs of single calls, two switches anywhere
Firsts == {KeyOp(k, KeySeq[i]) : k \in {"gen", "dec"}, i \in 1..4} \cup {KeyOp("decpriv", KeySeq[12]), KeyOp("gen", KeySeq[12]), KeyOp("gen", KeySeq[13])}
Works == {[kind |-> "stream", k |-> Streams[i]] : i \in 1..8} \cup {[kind |-> "mac", k |-> Macs[i]] : i \in 1..5} \cup {[kind |-> "derive", k |-> Derives[i]] : i \in 1..6} \cup {[kind |-> "crypt", k |-> Crypts[i]] : i \in 1..7}
          \cup {[kind |-> "trans", t |-> "g256", cv |-> "TCA"], [kind |-> "trans", t |-> "g512", cv |-> "512C"]}
\* one key used by several threads
Shared == {[kind |-> k, t |-> "g256", cv |-> "TCA"] : k \in {"ssign", "strans"}}
Settings == {[kind |-> "cipher", alg |-> "gost89"], [kind |-> "pbe"], [kind |-> "write", t |-> "g01", cv |-> "A"]}
Meets(a, b) == IF {a, b} \cap Shared # {} THEN {a, b} \subseteq Shared
               ELSE IF {a, b} \cap (Settings \cup Works) # {} THEN a = b ELSE Entry(a.cv) = Entry(b.cv)
Full == [crypt |-> "B", pbe |-> "256", fmt |-> "wrap"]
PairInit == /\ env = Full /\ sched = <<>> /\ ran = FALSE /\ hist = <<>>
            /\ \E a \in Firsts \cup Settings \cup Works \cup Shared, b \in Firsts \cup Settings \cup Works \cup Shared : Meets(a, b) /\ prog = <<<<a>>, <<b>>>>
PairNext == /\ ~ran /\ ran' = TRUE /\ UNCHANGED <<env, prog>>
            /\ \E i, j \in 0..Fraction :
                 /\ sched' = <<i, j>>
                 /\ hist' = <<[op |-> "env", env |-> env], [op |-> "add", th |-> 1, do |-> Told(env, prog[1][1])], [op |-> "add", th |-> 2, do |-> Told(env, prog[2][1])],
                              [op |-> "part", th |-> 1, n |-> i, of |-> Fraction], [op |-> "part", th |-> 2, n |-> j, of |-> Fraction], [op |-> "run"]>>
=============================================================================

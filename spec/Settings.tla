------------------------------ MODULE Settings ------------------------------
(* The three settings of the engine (cipher parameter set, PBE digest, private key
   format).  A control command or the first use fixes a value - the environment's when
   the variable is set, else the command's - which stays until the next command or until
   the engine is unloaded; without any the documented default holds and is looked up again
   every time.  Predicted: the parameter set of every cipher context opened, the PBE digest
   named, the format of every key written; that contexts opened earlier keep their set.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NCtx
VARIABLES env, val, up, ctxs, hist
vars == <<env, val, up, ctxs, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
Pick(q, x) == q[1 + (x % Len(q))]
None == <<"none", "">>

Sets == {"A", "B", "C", "D", "T", "Z"}
\* values as <<form, what>>; the harness spells them
Values(s) == CASE s = "crypt" -> [i \in 1..24 |-> <<<<"sn", "oid", "ln", "bad">>[1 + (i % 4)], <<"A", "B", "C", "D", "T", "Z">>[1 + ((i \div 4) % 6)]>>] \o <<<<"text", "">>>>
               [] s = "pbe" -> [i \in 1..6 |-> <<"text", <<"md_gost12_256", "md_gost12_512", "md_gost94", "sha256", "MD_GOST12_256", "">>[i]>>]
               [] OTHER -> [i \in 1..6 |-> <<"text", <<"LEGACY_PK_WRAP", "LEGACY_PK_WRAP", "legacy_pk_wrap", "LEGACY_PK_WRAPX", "LEGACY", "">>[i]>>]
\* what a value of the cipher setting selects
SetOf(v) == CASE v[1] \in {"none", "text"} -> "Z" [] v[1] = "bad" -> "bad" [] OTHER -> v[2]
PbeOf(v) == CASE v[2] = "md_gost12_256" -> "256" [] v[2] = "md_gost94" -> "94" [] OTHER -> "512"
FmtOf(v) == IF v[2] = "LEGACY_PK_WRAP" THEN "wrap" ELSE "raw"
Names == {"crypt", "pbe", "fmt"}
\* a value known stays; else the environment's is taken over
Seen(s) == IF val[s] # None THEN val[s] ELSE env[s]
Look(s) == val' = [val EXCEPT ![s] = Seen(s)]

NoCtx == [alg |-> "", set |-> "", n |-> 0]
Init == env = [s \in Names |-> None] /\ val = [s \in Names |-> None] /\ up = FALSE /\ ctxs = [c \in 1..NCtx |-> NoCtx] /\ hist = <<>>
LoadIt == ~up /\ up' = TRUE /\ val' = [s \in Names |-> None] /\ UNCHANGED <<env, ctxs>> /\ Log([op |-> "load", ok |-> 1])
Unload == /\ up /\ (\A c \in 1..NCtx : ctxs[c].alg = "") /\ up' = FALSE /\ val' = [s \in Names |-> None] /\ UNCHANGED <<env, ctxs>> /\ Log([op |-> "unload"])
SetEnv(s, v) == env' = [env EXCEPT ![s] = v] /\ UNCHANGED <<val, up, ctxs>> /\ Log([op |-> "env", s |-> s, v |-> v])
Command(s, v, how) ==
  /\ up /\ val' = [val EXCEPT ![s] = IF env[s] # None THEN env[s] ELSE v] /\ UNCHANGED <<env, up, ctxs>>
  /\ Log([op |-> "command", s |-> s, v |-> v, how |-> how])
NoCommand(x) == up /\ UNCHANGED <<env, val, up, ctxs>> /\ Log([op |-> "nocommand", x |-> x])
Open(c, alg) ==
  LET free == alg \in {"gost89", "gost89-cbc"}
      set == IF free THEN SetOf(Seen("crypt")) ELSE IF alg = "gost89-cnt" THEN "A" ELSE "Z" IN
  /\ up /\ ctxs[c].alg = "" /\ UNCHANGED <<env, up>>
  /\ IF free THEN Look("crypt") ELSE val' = val
  /\ ctxs' = [ctxs EXCEPT ![c] = IF set = "bad" THEN NoCtx ELSE [alg |-> alg, set |-> set, n |-> 0]]
  /\ Log([op |-> "copen", c |-> c, alg |-> alg, ok |-> B2N(set # "bad"), set |-> set])
More(c, n) == ctxs[c].alg # "" /\ (ctxs[c].alg = "gost89-cbc" => ctxs[c].n + n <= 1024) /\ ctxs' = [ctxs EXCEPT ![c].n = @ + n] /\ UNCHANGED <<env, val, up>> /\ Log([op |-> "cfeed", c |-> c, n |-> n])
\* a new message in the same context: the set stays
Again(c) == /\ ctxs[c].alg # "" /\ ctxs' = [ctxs EXCEPT ![c].n = 0] /\ UNCHANGED <<env, val, up>>
            /\ Log([op |-> "cagain", c |-> c, alg |-> ctxs[c].alg, set |-> ctxs[c].set])
Shut(c) == ctxs[c].alg # "" /\ ctxs' = [ctxs EXCEPT ![c] = NoCtx] /\ UNCHANGED <<env, val, up>>
           /\ Log([op |-> "cclose", c |-> c, alg |-> ctxs[c].alg, set |-> ctxs[c].set, n |-> ctxs[c].n])
Pbe(alg) == up /\ Look("pbe") /\ UNCHANGED <<env, up, ctxs>> /\ Log([op |-> "pbe", alg |-> alg, is |-> PbeOf(Seen("pbe"))])
Write(t, cv) == up /\ Look("fmt") /\ UNCHANGED <<env, up, ctxs>> /\ Log([op |-> "write", t |-> t, cv |-> cv, is |-> FmtOf(Seen("fmt"))])
\* key transport has sets of its own, whatever the settings
Trans(t, cv) ==
  /\ up /\ UNCHANGED <<env, val, up, ctxs>>
  /\ Log([op |-> "trans", t |-> t, cv |-> cv, set |-> IF t = "g01" THEN "A" ELSE "Z"])

W == {<<Rnd(0..479), Rnd(0..479), Rnd(0..479)>>}
NameSeq == <<"crypt", "crypt", "pbe", "fmt">>
Algs == <<"gost89", "gost89-cbc", "gost89", "gost89-cnt", "gost89-cnt-12">>
KeySeq == <<<<"g01", "A">>, <<"g256", "A">>, <<"g512", "512A">>, <<"g01", "XA">>, <<"g256", "TCA">>>>
Next ==
  \/ LoadIt \/ LoadIt \/ LoadIt
  \/ Unload
  \/ \E w \in W : LET s == Pick(NameSeq, w[1]) IN SetEnv(s, IF w[2] % 2 = 0 THEN None ELSE Pick(Values(s), w[3]))
  \/ \E w \in W : LET s == Pick(NameSeq, w[1]) IN SetEnv(s, IF w[2] % 2 = 0 THEN None ELSE Pick(Values(s), w[3]))
  \/ \E w \in W : LET s == Pick(NameSeq, w[1]) IN Command(s, Pick(Values(s), w[3]), "string")
  \/ \E w \in W : LET s == Pick(NameSeq, w[1]) IN Command(s, Pick(Values(s), w[3]), Pick(<<"string", "number", "cmd">>, w[2]))
  \/ \E w \in W : LET s == Pick(NameSeq, w[1]) IN w[2] % 4 = 0 /\ Command(s, None, "null")
  \/ \E w \in W : w[1] % 4 = 0 /\ NoCommand(Pick(<<"name", "number", "lower", "beyond", "below", "noarg">>, w[2]))
  \/ \E c \in {Rnd(1..NCtx)}, w \in W : Open(c, Pick(Algs, w[1]))
  \/ \E c \in {Rnd(1..NCtx)}, w \in W : Open(c, Pick(Algs, w[1]))
  \/ \E c \in {Rnd(1..NCtx)}, w \in W : More(c, Pick(<<8, 16, 24, 64, 1024, 1032>>, w[1]))
  \/ \E c \in {Rnd(1..NCtx)} : Again(c)
  \/ \E c \in {Rnd(1..NCtx)} : Shut(c)
  \/ \E w \in W : Pbe(Pick(<<"gost89-cnt", "gost89-cnt-12">>, w[1]))
  \/ \E w \in W : LET k == Pick(KeySeq, w[1]) IN Write(k[1], k[2])
  \/ \E w \in W : LET k == Pick(KeySeq, w[1]) IN w[2] % 2 = 0 /\ Trans(k[1], k[2])
  \/ Len(hist) < Depth /\ UNCHANGED vars
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
\* contexts always work with a set there is
Good == \A c \in 1..NCtx : ctxs[c].alg # "" => ctxs[c].set \in Sets
=============================================================================

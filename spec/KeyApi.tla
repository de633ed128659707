------------------------------- MODULE KeyApi -------------------------------
(* Keys and their encodings.  Slots hold keys (bare type, parameters only, public, private);
   encodings come from elsewhere - SubjectPublicKeyInfo, PKCS#8 with the inner forms raw,
   octet string, integer, masked (1..3 masks), sequence, key parameters - possibly altered,
   and from the slots.  Predicted: the verdict of every reading, the exact bytes of every
   writing, printing, comparison, copying of parameters, what a signature by one key is
   worth to another.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, NSlots, Small, Big, Focus
VARIABLES fam, slot, legacy, ngen, hist
vars == <<fam, slot, legacy, ngen, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
B2N(b) == IF b THEN 1 ELSE 0
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239)>>}
Pick(q, x) == q[1 + (x % Len(q))]
Pickset(X, x) == LET q == SetToSeq(X) IN Pick(q, x)
Algs32 == {"g01", "g01dh", "g256"}
SizeA(t) == IF t = "g512" THEN 64 ELSE 32
SizeC(cv) == IF cv \in Small THEN 32 ELSE 64
Curve(c) == CASE c \in {"A", "XA", "TCB"} -> "A" [] c \in {"B", "TCC"} -> "B" [] c \in {"C", "XB", "TCD"} -> "C" [] OTHER -> c
Aliases(cv) == {x \in Small \cup Big : Curve(x) = Curve(cv)}
SameSize(cv) == IF cv \in Small THEN Small ELSE Big
Plain == {"r1", "r2", "one", "two", "lead"}          \* the same number on every curve of one size
Classes == Plain \cup {"minus", "xlead", "ylead"}
None == [k |-> "none", t |-> "", cv |-> "", c |-> ""]
Key(k, t, cv, c) == [k |-> k, t |-> t, cv |-> cv, c |-> c]
Init == fam = <<>> /\ slot = [s \in 1..NSlots |-> None] /\ legacy = FALSE /\ ngen = 0 /\ hist = <<>>
Setup ==
  /\ fam = <<>>
  /\ \E w \in W :
     LET big == Small = {} \/ (Big # {} /\ w[1] % 4 = 0)
         cv == Pickset(IF big THEN Big ELSE Small, w[2])
         t == IF big THEN "g512" ELSE Pickset(Algs32, w[3])
         ali == Aliases(cv) oth == SameSize(cv)
         cs == SetToSeq(Classes)
     IN fam' = [t |-> t, cvs |-> <<cv, cv, Pickset(ali, w[4]), Pickset(oth, w[5])>>, cs |-> <<Pick(cs, w[6]), Pick(cs, w[1]), Pick(cs, w[6])>>]
  /\ UNCHANGED <<slot, legacy, ngen, hist>>
AnAlg(x) == IF fam.t = "g512" THEN "g512" ELSE IF x % 4 = 0 THEN Pickset(Algs32, x \div 4) ELSE fam.t
S == Rnd(1..NSlots)
On(s) == slot[s].k \notin {"none"}
HasPar(s) == slot[s].k \in {"par", "pub", "priv"}
HasPub(s) == slot[s].k \in {"pub", "priv"}
Put(s, k) == slot' = [slot EXCEPT ![s] = k]
\* ---- alterations of what is common to all encodings; answer: <<verdict, type, curve>>
ParAlters == <<"alias", "alg", "badCurve", "hashCurve", "otherSize", "algSize", "noParams", "nullParams", "intParams", "emptyParams", "noHash", "otherHash", "cipher">>
OtherAlg(t, x) == IF t = "g512" THEN "g512" ELSE Pickset(Algs32, x)
ParEffect(al, t, cv, x) ==
  CASE al = "alias" -> <<TRUE, t, Pickset(Aliases(cv), x)>>
    [] al = "alg" -> <<TRUE, OtherAlg(t, x), cv>>
    [] al \in {"noHash", "otherHash", "cipher"} -> <<TRUE, t, cv>>
    [] al = "otherSize" -> <<FALSE, t, IF cv \in Small THEN Pick(<<"512A", "512B", "512C", "512test">>, x) ELSE Pick(<<"A", "TCA", "test", "XB">>, x)>>
    [] al = "algSize" -> <<FALSE, IF t = "g512" THEN Pickset(Algs32, x) ELSE "g512", cv>>
    [] OTHER -> <<FALSE, t, cv>>
PubAlters == <<"otherCurve", "short", "long", "empty", "half", "double", "swap", "flip", "flip", "x+p", "y+p", "ones", "origin", "raw", "int", "trunc", "trunc", "noise", "noise">>
PubEffect(al, t, cv, x) ==
  CASE al = "otherCurve" -> (LET o == {c \in SameSize(cv) : Curve(c) # Curve(cv)} IN IF o = {} THEN <<FALSE, t, "unknown">> ELSE <<FALSE, t, Pickset(o, x)>>)
    [] OTHER -> <<FALSE, t, cv>>
PrivAlters == <<"otherCurve", "zero", "q", "q+1", "ones", "neg", "empty", "cut", "more", "len", "len0", "onlyone", "tag", "trunc", "trunc", "noise", "noise", "attrs">>
PrivEffect(al, t, cv, c, form, x) ==
  CASE al = "otherCurve" -> IF c \in Plain THEN <<TRUE, t, Pickset(SameSize(cv), x)>> ELSE <<TRUE, t, cv>>
    [] al = "attrs" -> <<TRUE, t, cv>>
    \* these do not apply to every form; where they do not, nothing is altered
    [] al = "neg" -> <<form # "integer", t, cv>>
    [] al \in {"len0", "onlyone"} -> <<form # "seq", t, cv>>
    [] al = "len" -> <<form \notin {"octets", "seq"}, t, cv>>
    [] al \in {"q", "q+1", "ones"} -> <<form \notin {"raw", "octets", "integer"}, t, cv>>
    [] OTHER -> <<FALSE, t, cv>>
Forms == <<"raw", "raw", "octets", "octets", "integer", "masked", "masked", "seq">>
Altered(w) == IF Focus = "alter" THEN w % 4 # 0 ELSE w % 8 = 0
\* ---- reading
Read(s) ==
  /\ \E w \in W, v \in W :
     LET kind == Pick(<<"spki", "spki", "p8", "p8", "p8", "par">>, w[1])
         t == AnAlg(w[2]) cv == Pick(fam.cvs, w[3]) c == Pick(fam.cs, w[4])
         form == Pick(Forms, w[5]) nm == IF form \in {"masked", "seq"} THEN 1 + (w[6] % 3) ELSE 0
         a == Altered(v[1]) common == v[2] % 3 = 0
         al == IF ~a THEN "none" ELSE IF kind = "par" THEN Pick(<<"alias", "badCurve", "hashCurve", "otherSize", "trunc", "notoid", "noise">>, v[3])
               ELSE IF common THEN Pick(ParAlters, v[3])
               ELSE IF kind = "spki" THEN Pick(PubAlters, v[3]) ELSE Pick(PrivAlters, v[3])
         al2 == IF form = "seq" /\ nm = 0 THEN "none" ELSE al
         e == IF ~a THEN <<TRUE, t, cv>>
              ELSE IF kind = "par" THEN (IF al \in {"alias", "otherSize"} THEN ParEffect(al, t, cv, v[4]) ELSE <<FALSE, t, cv>>)
              ELSE IF common THEN ParEffect(al, t, cv, v[4])
              ELSE IF kind = "spki" THEN PubEffect(al, t, cv, v[4]) ELSE PrivEffect(al, t, cv, c, form, v[4])
         ok == e[1] /\ (kind = "par" => t \in {"g01", "g01dh"})
     IN /\ IF al = "noise" THEN Put(s, None)
           ELSE Put(s, IF ~ok THEN None ELSE Key(CASE kind = "spki" -> "pub" [] kind = "p8" -> "priv" [] OTHER -> "par", e[2], e[3], IF kind = "par" THEN "" ELSE c))
        /\ Log([op |-> "read", s |-> s, kind |-> kind, t |-> t, cv |-> cv, c |-> c, form |-> form, nm |-> nm, alter |-> al2, t2 |-> e[2], cv2 |-> e[3],
                p |-> v[5] * 240 + v[6], ok |-> IF al = "noise" THEN 2 ELSE B2N(ok)])
  /\ UNCHANGED <<fam, legacy, ngen>>
\* ---- writing; a key lacking the part asked for cannot be written
Write(s) ==
  /\ On(s)
  /\ \E w \in W : LET kind == Pick(<<"spki", "spki", "p8", "p8", "p8", "par">>, w[1]) IN
     Log([op |-> "write", s |-> s, kind |-> kind, key |-> slot[s], legacy |-> B2N(legacy),
          ok |-> B2N(CASE kind = "spki" -> HasPub(s) [] kind = "p8" -> slot[s].k = "priv" [] OTHER -> HasPar(s) /\ slot[s].t \in {"g01", "g01dh"})])
  /\ UNCHANGED <<fam, slot, legacy, ngen>>
\* a written key read back by the engine itself, through PEM or DER
Carry(s) ==
  /\ HasPub(s) /\ Len(hist) > 0
  /\ \E r \in {S}, pub \in {Rnd({TRUE, FALSE})} : LET p == pub \/ slot[s].k = "pub" IN
     /\ Put(r, [slot[s] EXCEPT !.k = IF p THEN "pub" ELSE "priv"])
     /\ Log([op |-> "carry", s |-> s, r |-> r, pub |-> B2N(p)])
  /\ UNCHANGED <<fam, legacy, ngen>>
Format == /\ legacy' = ~legacy /\ UNCHANGED <<fam, slot, ngen>>
          /\ \E x \in {Rnd(1..3)} : Log([op |-> "format", val |-> IF legacy THEN Pick(<<"RAW", "legacy_pk_wrap", "LEGACY_PK_WRAP1">>, x) ELSE "LEGACY_PK_WRAP"])
Bare(s) == /\ \E w \in W : Put(s, Key("bare", AnAlg(w[1]), "", "")) /\ Log([op |-> "bare", s |-> s, t |-> AnAlg(w[1])])
           /\ UNCHANGED <<fam, legacy, ngen>>
CopyPar(s) ==
  /\ On(s)
  /\ \E r \in {S} :
     /\ On(r) /\ r # s
     /\ LET a == slot[s] b == slot[r]
            ok == a.t = b.t /\ HasPar(r) /\ (HasPar(s) => a.cv = b.cv)
        IN /\ Put(s, IF ok /\ ~HasPar(s) THEN Key("par", a.t, b.cv, "") ELSE a)
           /\ Log([op |-> "copypar", s |-> s, r |-> r, ok |-> B2N(ok)])
  /\ UNCHANGED <<fam, legacy, ngen>>
Generate(s) ==
  /\ HasPar(s) /\ ngen < 3
  /\ \E r \in {S} : /\ Put(r, Key("priv", slot[s].t, slot[s].cv, "gen" \o ToString(ngen + 1)))
                    /\ Log([op |-> "gen", s |-> s, r |-> r, key |-> Key("priv", slot[s].t, slot[s].cv, "gen" \o ToString(ngen + 1))])
  /\ ngen' = ngen + 1 /\ UNCHANGED <<fam, legacy>>
SameKey(a, b) == Curve(a.cv) = Curve(b.cv) /\ a.c = b.c
Equal(s) ==
  /\ On(s)
  /\ \E r \in {S} : /\ On(r)
     /\ Log([op |-> "eq", s |-> s, r |-> r,
             ok |-> B2N(s = r \/ (HasPub(s) /\ HasPub(r) /\ slot[s].t = slot[r].t /\ slot[s].cv = slot[r].cv /\ slot[s].c = slot[r].c)),
             par |-> B2N(HasPar(s) /\ HasPar(r) /\ slot[s].t = slot[r].t /\ slot[s].cv = slot[r].cv)])
  /\ UNCHANGED <<fam, slot, legacy, ngen>>
Use(s) ==
  /\ slot[s].k = "priv"
  /\ \E r \in {S} : HasPub(r) /\ Log([op |-> "use", s |-> s, r |-> r, n |-> IF slot[s].t = "g512" THEN 64 ELSE 32, ok |-> B2N(SameKey(slot[s], slot[r]) /\ SizeA(slot[s].t) = SizeA(slot[r].t))])
  /\ UNCHANGED <<fam, slot, legacy, ngen>>
Info(s) == /\ On(s) /\ UNCHANGED <<fam, slot, legacy, ngen>>
           /\ Log([op |-> "info", s |-> s, key |-> slot[s], bits |-> 8 * SizeA(slot[s].t), missing |-> B2N(~HasPar(s))])
CheckKey(s) == /\ HasPar(s) /\ UNCHANGED <<fam, slot, legacy, ngen>>
               /\ Log([op |-> "check", s |-> s, ok |-> B2N(HasPub(s))])
PrintKey(s) == /\ On(s) /\ UNCHANGED <<fam, slot, legacy, ngen>>
            /\ \E x \in {Rnd(0..2)} : Log([op |-> "print", s |-> s, what |-> Pick(<<"params", "public", "private">>, x), key |-> slot[s], indent |-> Pick(<<0, 4, 2>>, x)])
Next ==
  \/ Setup
  \/ (fam # <<>> /\ \E s \in {S} : Read(s))
  \/ (fam # <<>> /\ \E s \in {S} : Read(s))
  \/ (fam # <<>> /\ Focus = "alter" /\ \E s \in {S} : Read(s))
  \/ (fam # <<>> /\ Focus = "alter" /\ \E s \in {S} : Read(s))
  \/ (fam # <<>> /\ \E s \in {S} : Write(s))
  \/ (fam # <<>> /\ \E s \in {S} : Carry(s))
  \/ (fam # <<>> /\ \E s \in {S} : Equal(s))
  \/ (fam # <<>> /\ \E s \in {S} : Use(s))
  \/ (fam # <<>> /\ \E s \in {S} : Info(s))
  \/ (fam # <<>> /\ Rnd(1..3) = 1 /\ \E s \in {S} : PrintKey(s))
  \/ (fam # <<>> /\ Rnd(1..4) = 1 /\ \E s \in {S} : CheckKey(s))
  \/ (fam # <<>> /\ Rnd(1..4) = 1 /\ Format)
  \/ (fam # <<>> /\ Rnd(1..4) = 1 /\ \E s \in {S} : Bare(s))
  \/ (fam # <<>> /\ Rnd(1..2) = 1 /\ \E s \in {S} : CopyPar(s))
  \/ (fam # <<>> /\ Rnd(1..4) = 1 /\ \E s \in {S} : Generate(s))
  \/ (Len(hist) < Depth /\ UNCHANGED vars)
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================

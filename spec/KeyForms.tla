------------------------------ MODULE KeyForms ------------------------------
(* The inner private key forms at byte level, in a small world: keys are N bytes of base
   Base, numbers modulo the group order Q.  A private key is written raw or as an octet
   string (little-endian, zeros kept), as an integer (big-endian, shortest, a leading zero
   when the top byte would read as a sign), or masked: d * m1^-1 * .. with the masks after
   it, raw or inside a sequence.  Reading goes by length first - a multiple of N is raw -
   and then by tag, as the code does; the model shows which forms survive that rule for
   every key, and that what is outside 1..Q-1 or of another length is refused.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Base, Q, MaxMasks, Little, KeepZeros, RangeCheck, LenCheck
VARIABLES d, masks, form, blob, got, ph
vars == <<d, masks, form, blob, got, ph>>
OCT == 4 INT == 2 SEQ == 5
None == -1
RECURSIVE Digits(_, _)
Digits(v, n) == IF n = 0 THEN <<>> ELSE <<v % Base>> \o Digits(v \div Base, n - 1)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * Val(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
Le(v) == IF KeepZeros THEN Digits(v, N) ELSE Rev(Strip(Rev(Digits(v, N))))
Inv(x) == CHOOSE y \in 1..Q-1 : (x * y) % Q = 1
RECURSIVE MaskAll(_, _)
MaskAll(v, ms) == IF ms = <<>> THEN v ELSE MaskAll((v * Inv(ms[1])) % Q, Tail(ms))
RECURSIVE Cat(_)
Cat(ms) == IF ms = <<>> THEN <<>> ELSE Digits(ms[1], N) \o Cat(Tail(ms))
Tlv(t, c) == <<t, Len(c)>> \o c
Shortest(v) == LET b == Strip(Rev(Digits(v, N))) IN IF b = <<>> THEN <<0>> ELSE IF b[1] >= (Base + 1) \div 2 THEN <<0>> \o b ELSE b
Encode(f, v, ms) ==
  CASE f = "raw" -> Le(v)
    [] f = "octets" -> Tlv(OCT, Le(v))
    [] f = "integer" -> Tlv(INT, Shortest(v))
    [] f = "masked" -> Digits(MaskAll(v, ms), N) \o Cat(ms)
    [] f = "seq" -> Tlv(SEQ, Tlv(OCT, Digits(MaskAll(v, ms), N) \o Cat(ms)))
\* reading
RECURSIVE Unmask(_, _, _)
Unmask(v, s, k) == IF k = 0 THEN v ELSE Unmask((v * Val(SubSeq(s, k * N + 1, (k + 1) * N))) % Q, s, k - 1)
Number(s) == IF Little THEN Val(s) ELSE Val(Rev(s))
Plain(s) == LET k == (Len(s) \div N) - 1 IN IF k = 0 THEN Number(s) ELSE Unmask(Val(SubSeq(s, 1, N)), s, k)
Body(s) == IF Len(s) >= 2 /\ s[2] = Len(s) - 2 THEN SubSeq(s, 3, Len(s)) ELSE <<>>
Multiple(s) == Len(s) > 0 /\ Len(s) % N = 0
Parse(s) ==
  IF Multiple(s) THEN Plain(s)
  ELSE IF s = <<>> THEN None
  ELSE LET b == Body(s) IN
    CASE s[1] = OCT -> IF b # <<>> /\ (~LenCheck \/ Len(b) = N) THEN Number(b) ELSE None
      [] s[1] = INT -> IF b # <<>> /\ (b[1] < (Base + 1) \div 2) THEN Val(Rev(b)) ELSE None
      [] s[1] = SEQ -> LET i == Body(b) IN IF b # <<>> /\ b[1] = OCT /\ Multiple(i) THEN Plain(i) ELSE None
      [] OTHER -> None
Read(s) == LET v == Parse(s) IN IF v # None /\ RangeCheck /\ v \notin 1..Q-1 THEN None ELSE v
Forms == {"raw", "octets", "integer", "masked", "seq"}
Init == /\ d \in 0..Base^N - 1 /\ form \in Forms /\ masks = <<>> /\ blob = <<>> /\ got = None /\ ph = 0
Mask == /\ ph = 0 /\ form \in {"masked", "seq"} /\ d \in 1..Q-1 /\ Len(masks) < MaxMasks
        /\ \E m \in 1..Q-1 : masks' = Append(masks, m)
        /\ UNCHANGED <<d, form, blob, got, ph>>
Write == /\ ph = 0 /\ (form \in {"masked", "seq"} => d \in 1..Q-1)
         /\ blob' = Encode(form, d, masks) /\ ph' = 1 /\ UNCHANGED <<d, masks, form, got>>
\* a byte lost or added on the way
Cut == ph = 1 /\ Len(masks) = 0 /\ blob' = SubSeq(blob, 1, Len(blob) - 1) /\ ph' = 3 /\ UNCHANGED <<d, masks, form, got>>
Lengthen == /\ ph = 1 /\ Len(masks) = 0 /\ form = "octets" /\ \E x \in {0, 1} : blob' = Tlv(OCT, Body(blob) \o <<x, x>>)
            /\ ph' = 3 /\ UNCHANGED <<d, masks, form, got>>
Take == ph \in {1, 3} /\ got' = Read(blob) /\ ph' = ph + 1 /\ UNCHANGED <<d, masks, form, blob>>
Next == Mask \/ Write \/ Cut \/ Lengthen \/ Take
Sound == d \in 1..Q-1
\* the raw reading wins when an integer or a sequence happens to have a raw key's length: that is the format's own ambiguity
Ambiguous == form \in {"integer", "seq"} /\ Multiple(blob)
RoundTrip == ph = 2 /\ Sound /\ ~Ambiguous => got = d
Never == ph = 2 /\ form \in {"raw", "octets", "masked"} => ~(form = "octets" /\ Multiple(blob))
Refused == ph = 2 /\ ~Sound /\ ~Ambiguous => got = None
Lost == ph = 4 /\ ~Multiple(blob) => got = None
InRange == ph \in {2, 4} => got = None \/ got \in 1..Q-1
=============================================================================

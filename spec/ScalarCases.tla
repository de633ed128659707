----------------------------- MODULE ScalarCases ----------------------------
(* Point multiplication asked for on every parameter set: n*G, m*P, n*G + m*P and public
   keys, for scalars given as terms - small, around multiples of the order, around powers
   of two (every bit, hence every window and comb position), single digits, repeated
   patterns, random, longer than the order - and points given as terms: multiples of G,
   the points whose multiples cancel or coincide with the other product, points of small
   order or with a part of small order, points with extreme coordinates, infinity.
   Whether the result is the point at infinity is predicted from the terms by arithmetic
   modulo the order for the terms that allow it.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Curves, Part, Bits, Stride
VARIABLES cv, hist
vars == <<cv, hist>>
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
W == {<<Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..239), Rnd(0..1023)>>}
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Pick(q, x) == q[1 + (x % Len(q))]
T(t, i, k) == <<t, i, k>>
\* c: i;  q: i*q + k;  pow: 2^i + k;  dig: k * 32^i;  rep: the 5-bit pattern i repeated, plus k;  half: (q + k) / 2;  top: the largest number of full length minus k
Scalar(w, u) ==
  CASE w[u] % 12 = 0 -> T("c", w[5] % 40, 0)
    [] w[u] % 12 = 1 -> T("q", 1, Pick(<<-3, -2, -1, 0, 1, 2, 3>>, w[5]))
    [] w[u] % 12 = 2 -> T("q", 2, Pick(<<-1, 0, 1>>, w[5]))
    [] w[u] % 12 = 3 -> T("half", 0, Pick(<<-1, 1>>, w[5]))
    [] w[u] % 12 = 4 -> T("pow", w[5] % Bits, Pick(<<-1, 0, 1>>, w[3]))
    [] w[u] % 12 = 5 -> T("dig", w[5] % ((Bits \div 5) + 1), 1 + (w[4] % 31))
    [] w[u] % 12 = 6 -> T("rep", w[5] % 32, Pick(<<0, 1>>, w[4]))
    [] w[u] % 12 = 7 -> T("top", 0, w[5] % 3)
    [] w[u] % 12 = 8 -> T("sparse", w[5], 0)
    [] w[u] % 12 = 9 -> T("dense", w[5], 0)
    [] OTHER -> T("rnd", w[5], 0)
\* multiples of G and others; "rel": the point that makes n*G and m*P equal (+) or opposite (-)
Point(w) ==
  CASE w[2] % 12 \in {0, 1} -> T("mul", 1 + (w[4] % 4), 0)
    [] w[2] % 12 = 2 -> T("neg", 1 + (w[4] % 3), 0)
    [] w[2] % 12 = 3 -> T("rel", 1, 0)
    [] w[2] % 12 = 4 -> T("rel", -1, 0)
    [] w[2] % 12 = 5 -> T("low", 0, 0)
    [] w[2] % 12 = 6 -> T("mix", w[4], 0)
    [] w[2] % 12 = 7 -> T("small", w[4] % 8, 0)
    [] w[2] % 12 = 8 -> T("large", w[4] % 8, 0)
    [] w[2] % 12 = 9 -> T("half", 0, 0)
    [] OTHER -> T("rnd", w[4], 0)
Init == cv \in Curves /\ hist = <<>>
Nothing == <<"", 0, 0>>
G == \E w \in W : Log([op |-> "g", n |-> Scalar(w, 1), m |-> Nothing, p |-> Nothing, alias |-> 0])
Var == \E w \in W, x \in W : Log([op |-> "var", n |-> Nothing, m |-> Scalar(w, 1), p |-> Point(x), alias |-> x[3] % 2])
Two == \E w \in W, x \in W, y \in W : Log([op |-> "two", n |-> Scalar(w, 1), m |-> Scalar(y, 1), p |-> Point(x), alias |-> x[3] % 2])
Pub == \E w \in W : Log([op |-> "pub", n |-> Scalar(w, 1), m |-> Nothing, p |-> Nothing, alias |-> 0])
\* the exhaustive part: every power of two and every digit at every position, through n*G and m*P
Sweep ==
  \E k \in {Len(hist)} :
    LET j == k * Stride
        i == j \div 8  v == j % 8
        sc == IF i < Bits THEN (IF v < 3 THEN T("pow", i, v - 1) ELSE T("dig", i \div 5, 1 + (((i % 5) * 5 + v - 3) % 31))) ELSE T("rnd", j, 0)
    IN Log([op |-> IF Part = "g" THEN "g" ELSE "var", n |-> IF Part = "g" THEN sc ELSE Nothing, m |-> IF Part = "g" THEN Nothing ELSE sc,
            p |-> IF Part = "g" THEN Nothing ELSE T("mul", 2 + (k % 3), 0), alias |-> 0])
Next == /\ UNCHANGED cv
        /\ IF Part \in {"g", "var"} THEN Sweep
           ELSE (G \/ Var \/ Two \/ Two \/ Pub \/ (Len(hist) < Depth /\ UNCHANGED hist))
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(<<cv, hist>>))
\* a zero scalar, or the order, times a point of the group is the point at infinity
Zero(s) == s = T("c", 0, 0) \/ (s[1] = "q" /\ s[3] = 0) \/ (s[1] = "rep" /\ s[2] = 0 /\ s[3] = 0)
=============================================================================

----------------------------- MODULE ScalarMul ------------------------------
(* The scalar recodings and evaluation loops behind fast point multiplication, digit by
   digit as ecp_*.c performs them, for every scalar of N bits: the regular recoding (odd
   digits only) evaluated by windows and by an interleaved comb, and the sliding-window
   recoding of two scalars evaluated together with a sign that is flipped lazily.
   The accumulator is a pair of integers <<g, p>> standing for g*G + p*P.  Removable:
   the correction for even scalars, the correction of the sign, the top digit.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, N, Teeth, Part, FixEven, FixSign, FullTop
VARIABLES a, b, win, digs, digs2, i, q, inf, flip, ph
vars == <<a, b, win, digs, digs2, i, q, inf, flip, ph>>
D == 2 ^ W
\* digits of the regular recoding: enough for N bits
Nd == ((N + W - 1) \div W) - (IF FullTop THEN 0 ELSE 1)
Nw == N + 1
Bit(x, k) == (x \div (2 ^ k)) % 2
Odd(x) == IF x % 2 = 0 THEN x + 1 ELSE x
Shr(x, k) == (x - (x % (2 ^ k))) \div (2 ^ k)
Init == /\ a \in 0..(2 ^ N - 1) /\ b \in (IF Part = "two" THEN 0..(2 ^ N - 1) ELSE {0})
        /\ win = <<>> /\ digs = <<>> /\ digs2 = <<>> /\ i = 0 /\ q = <<0, 0>> /\ inf = TRUE /\ flip = FALSE /\ ph = "recode"
\* regular recoding: window of W + 1 bits, minus 2^W
RDigit(x, w) == (w % (2 * D)) - D
RNext(x, w, k) == LET d == RDigit(x, w) IN Shr(w - d, W) + ((x \div (2 ^ ((k + 1) * W + 1))) % D) * 2
Recode ==
  /\ ph = "recode" /\ Part # "two"
  /\ LET w == IF win = <<>> THEN Odd(a % (2 * D)) ELSE win[1] IN
     IF Len(digs) < Nd - 1
     THEN digs' = Append(digs, RDigit(a, w)) /\ win' = <<RNext(a, w, Len(digs))>> /\ ph' = ph /\ i' = i
     ELSE digs' = Append(digs, w) /\ win' = <<>> /\ ph' = "eval" /\ i' = IF Part = "window" THEN Nd - 1 ELSE Teeth - 1
  /\ UNCHANGED <<a, b, digs2, q, inf, flip>>
\* sliding window recoding of both scalars
WDigit(w) == IF w % 2 = 0 THEN 0 ELSE LET d == w % (2 * D) IN IF d >= D THEN d - 2 * D ELSE d
WNext(x, w, k) == Shr(w - WDigit(w), 1) + Bit(x, k + 1 + W) * D
Recode2 ==
  /\ ph = "recode" /\ Part = "two"
  /\ LET w == IF win = <<>> THEN <<a % (2 * D), b % (2 * D)>> ELSE win IN
     /\ digs' = Append(digs, WDigit(w[1])) /\ digs2' = Append(digs2, WDigit(w[2]))
     /\ win' = <<WNext(a, w[1], Len(digs)), WNext(b, w[2], Len(digs))>>
     /\ IF Len(digs) + 1 = Nw THEN ph' = "eval" /\ i' = Nw - 1 ELSE ph' = ph /\ i' = i
  /\ UNCHANGED <<a, b, q, inf, flip>>
\* one scalar, windows from the top
Window ==
  /\ ph = "eval" /\ Part = "window"
  /\ q' = IF i = Nd - 1 THEN <<digs[i + 1], 0>> ELSE <<q[1] * D + digs[i + 1], 0>>
  /\ IF i = 0 THEN ph' = "fix" /\ i' = 0 ELSE ph' = ph /\ i' = i - 1
  /\ UNCHANGED <<a, b, win, digs, digs2, inf, flip>>
\* the comb: digits i, i + Teeth, i + 2*Teeth ... from tables of G * 2^(W*Teeth*j)
RECURSIVE Column(_, _)
Column(c, j) == IF j * Teeth + c >= Nd THEN 0 ELSE digs[j * Teeth + c + 1] * 2 ^ (W * Teeth * j) + Column(c, j + 1)
Comb ==
  /\ ph = "eval" /\ Part = "comb"
  /\ q' = <<(IF i = Teeth - 1 THEN q[1] ELSE q[1] * D) + Column(i, 0), 0>>
  /\ IF i = 0 THEN ph' = "fix" /\ i' = 0 ELSE ph' = ph /\ i' = i - 1
  /\ UNCHANGED <<a, b, win, digs, digs2, inf, flip>>
Neg(v) == <<-v[1], -v[2]>>
\* one digit d of the accumulator's term k: negate the accumulator rather than the table entry
Step(st, d, k) ==
  IF d = 0 THEN st
  ELSE LET neg == d < 0
           st1 == IF neg # st.f THEN [st EXCEPT !.q = Neg(@), !.f = ~@] ELSE st
           m == IF neg THEN -d ELSE d
       IN IF st1.inf THEN [st1 EXCEPT !.q = IF k = 1 THEN <<m, 0>> ELSE <<0, m>>, !.inf = FALSE]
          ELSE [st1 EXCEPT !.q = IF k = 1 THEN <<@[1] + m, @[2]>> ELSE <<@[1], @[2] + m>>]
Two ==
  /\ ph = "eval" /\ Part = "two"
  /\ LET st0 == [q |-> IF inf THEN q ELSE <<2 * q[1], 2 * q[2]>>, f |-> flip, inf |-> inf]
         st == Step(Step(st0, digs2[i + 1], 2), digs[i + 1], 1)
     IN q' = st.q /\ flip' = st.f /\ inf' = st.inf
  /\ IF i = 0 THEN ph' = "fix" /\ i' = 0 ELSE ph' = ph /\ i' = i - 1
  /\ UNCHANGED <<a, b, win, digs, digs2>>
Fix ==
  /\ ph = "fix" /\ ph' = "done"
  /\ q' = IF Part = "two" THEN (IF flip /\ FixSign THEN Neg(q) ELSE q)
          ELSE IF a % 2 = 0 /\ FixEven THEN <<q[1] - 1, 0>> ELSE q
  /\ UNCHANGED <<a, b, win, digs, digs2, i, inf, flip>>
Next == Recode \/ Recode2 \/ Window \/ Comb \/ Two \/ Fix
\* the accumulator ends with exactly the scalars it was given
Right == ph = "done" => q = <<a, b>>
\* every table lookup stays inside the table of odd multiples 1, 3, ... 2^W - 1
Lookups == /\ Part # "two" => \A k \in 1..Len(digs) : digs[k] % 2 = 1 /\ digs[k] < D /\ digs[k] > -D
           /\ Part = "two" => \A k \in 1..Len(digs) : (digs[k] # 0 => digs[k] % 2 = 1 /\ digs[k] < D /\ digs[k] > -D)
TopPositive == Part # "two" /\ ph # "recode" => digs[Len(digs)] > 0
\* the window fits the signed byte it is kept in
Fits == \A k \in 1..Len(win) : win[k] < 4 * D /\ win[k] >= 0
Sparse == Part = "two" /\ ph # "recode" => \A k \in 1..(Len(digs) - 1) : digs[k] # 0 => digs[k + 1] = 0
=============================================================================

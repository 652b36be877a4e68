--------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic within TLC's 32 bits, and small helpers.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Tables

G(label, cond) == IF cond THEN {} ELSE {label}
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Range(q) == {q[i] : i \in DOMAIN q}
NoFun == [x \in {} |-> 0]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* <<floor(a * num / den), remainder>> for a, num >= 0; needs num + 2 * den < 2^31
RECURSIVE MulDivR(_, _, _)
MulDivR(a, num, den) ==
    IF a = 0 THEN <<0, 0>>
    ELSE LET h == MulDivR(a \div 2, num % den, den)
             r == 2 * h[2] + (IF a % 2 = 1 THEN num % den ELSE 0)
         IN  << 2 * h[1] + r \div den + a * (num \div den), r % den >>
MulDiv(a, num, den) ==                                          \* any sign of a
    IF num < den /\ Abs(a) < 32768 /\ num < 65536 THEN (IF a >= 0 THEN (a * num) \div den ELSE -((-a * num) \div den))
    ELSE IF a >= 0 THEN MulDivR(a, num, den)[1] ELSE -(MulDivR(-a, num, den)[1])
\* (a * b) mod m
MulMod(a, b, m) == MulDivR(a, b, m)[2]

Two24 == 16777216
\* 10^6 * sin(2 pi p / 2^24)
SinQ(q) == LET i == q \div 4096  f == q % 4096 IN SinTab[i + 1] + (IF f = 0 THEN 0 ELSE ((SinTab[i + 2] - SinTab[i + 1]) * f) \div 4096)
Sin6(p0) ==
    LET p == p0 % Two24  quarter == p \div 4194304  r == p % 4194304
    IN  CASE quarter = 0 -> SinQ(r) [] quarter = 1 -> SinQ(4194304 - r) [] quarter = 2 -> -SinQ(r) [] OTHER -> -SinQ(4194304 - r)

\* 2^24 * 2^(f / 2^20), 0 <= f < 2^20
Exp24(f) == LET i == f \div 1024  r == f % 1024 IN ExpTab[i + 1] + ((ExpTab[i + 2] - ExpTab[i + 1]) * r) \div 1024

\* 2^18 * ratio of h half decibels; below -120 dB there is silence
Db18(h) == IF h < -240 THEN 0 ELSE DbTab[h + 241]
=============================================================================

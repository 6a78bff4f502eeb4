-------------------------------- MODULE Fixed ---------------------------------
(* Fixed-point numbers: S units are 1.  Cosines by their series, the nodes of
   Gauss given and checked by the recurrence of Legendre polynomials.          *)
EXTENDS Integers, Sequences
S == 10000
AbsF(x) == IF x < 0 THEN -x ELSE x
\* division rounded down also for negative numbers (TLC: \div is floor)
Mul(a, b) == (a * b) \div S
CosQ(a) == LET t == Mul(a, a) t2 == Mul(t, t) t3 == Mul(t2, t) IN S - t \div 2 + t2 \div 24 - t3 \div 720 + (((t3 \div 10) * t) \div 1000) \div 40320
CosOf(k, n) == \* cos(2 pi k / n)
  LET m == k % n a == (62832 * m) \div n h == IF a > 31416 THEN 62832 - a ELSE a
  IN IF h > 15708 THEN -CosQ(31416 - h) ELSE CosQ(h)
SinOf(k, n) == CosOf(4 * (k % n) - n, 4 * n)
\* tables for the numbers of samples most used
CosTab == [n \in (1..44) \cup {600, 601, 799, 800} |-> [k \in 0..(n - 1) |-> CosOf(k, n)]]
SinTab == [n \in (1..44) \cup {600, 601, 799, 800} |-> [k \in 0..(n - 1) |-> SinOf(k, n)]]
CosA(k, n) == IF n \in DOMAIN CosTab THEN CosTab[n][k % n] ELSE CosOf(k, n)
SinA(k, n) == IF n \in DOMAIN CosTab THEN SinTab[n][k % n] ELSE SinOf(k, n)
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumF(F, n - 1)
RECURSIVE Power(_, _)
Power(x, j) == IF j = 0 THEN S ELSE Mul(Power(x, j - 1), x)
\* nodes of Gauss, in increasing order
Gauss == << <<0>>, <<-5774, 5774>>, <<-7746, 0, 7746>>, <<-8611, -3400, 3400, 8611>>, <<-9062, -5385, 0, 5385, 9062>>, <<-9325, -6612, -2386, 2386, 6612, 9325>> >>
RECURSIVE Legendre(_, _)
Legendre(n, x) == IF n = 0 THEN S ELSE IF n = 1 THEN x ELSE ((2 * n - 1) * Mul(x, Legendre(n - 1, x)) - (n - 1) * Legendre(n - 2, x)) \div n
ASSUME \A n \in DOMAIN Gauss : Len(Gauss[n]) = n /\ \A i \in 1..n : AbsF(Legendre(n, Gauss[n][i])) <= 8
ASSUME \A n \in 1..12, k \in 0..12 : AbsF(Mul(CosA(k, n), CosA(k, n)) + Mul(SinA(k, n), SinA(k, n)) - S) <= 8
ASSUME AbsF(CosA(1, 12) - 8660) <= 3 /\ AbsF(CosA(1, 6) - 5000) <= 3 /\ AbsF(SinA(1, 12) - 5000) <= 3 /\ AbsF(SinA(1, 4) - S) <= 3 /\ AbsF(SinA(3, 4) + S) <= 3
=============================================================================

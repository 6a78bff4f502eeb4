------------------------------- MODULE NumRel ---------------------------------
(* Interpolation weights, spectra, statistics of time, as the values recorded
   must be.  Samples are small integers, positions are eighths.                *)
EXTENDS Fixed, FiniteSets
\* -- interpolation: weights w[i] at x give back every polynomial of degree below n
Exact(n, x, w) == \A j \in 0..(n - 1) :
  AbsF(SumF(LAMBDA i : Mul(w[i], Power(Gauss[n][i], j)), n) - Power(x, j)) <= 12 + 6 * n
\* weights of the derivative, thousandths
ExactDer(n, x, w) == \A j \in 0..(n - 1) :
  AbsF(SumF(LAMBDA i : Mul(w[i], Power(Gauss[n][i], j)), n) - (IF j = 0 THEN 0 ELSE (j * Power(x, j - 1)) \div 10)) <= 4 + 4 * n
\* -- selections as those of sequences: lo and hi are <<>> when not given
Norm(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE IF i > n THEN n ELSE i
Cut(x, lo, hi) == LET n == Len(x) a == IF lo = <<>> THEN 0 ELSE Norm(lo[1], n) b == IF hi = <<>> THEN n ELSE Norm(hi[1], n) IN SubSeq(x, a + 1, b)
\* -- discrete Fourier transform, U: unit of the sums (100: hundredths)
ReF(x, k, u) == SumF(LAMBDA j : x[j] * CosA((j - 1) * k, Len(x)), Len(x)) \div u
ImF(x, k, u) == SumF(LAMBDA j : x[j] * SinA((j - 1) * k, Len(x)), Len(x)) \div u
CloseAmp(a, r, i, tol) == AbsF(r * r + i * i - a * a) <= 2 * tol * a + 4 * tol * tol
AmpOk(a, x, k) == CloseAmp(a, ReF(x, k, 100), ImF(x, k, 100), 3 + Len(x) \div 2)
\* ranks of the frequencies of n samples: from 0 up, then negative ones
Rank(k, n) == IF k <= (n - 1) \div 2 THEN k ELSE k - n
\* -- windows of the spectrogram: half h, 2h + 1 samples every h samples
Windows(n, h) == (n - 1) \div h - 1
Hann(j, h) == (S - CosA(j, 2 * h)) \div 2
WinAmpOk(a, x, i, k, h) ==
  LET m == 2 * h + 1 X(j) == x[h * i + j + 1] * Hann(j, h)
      re == SumF(LAMBDA j : (X(j - 1) * CosA((j - 1) * k, m)) \div S, m) \div 100
      im == SumF(LAMBDA j : (X(j - 1) * SinA((j - 1) * k, m)) \div S, m) \div 100
  IN CloseAmp(a, re, im, 3 + h)
\* -- statistics of steps of time (times are integers): sum of the steps, m * sum of squares - square of the sum
Steps(t) == [k \in 1..(Len(t) - 1) |-> t[k + 1] - t[k]]
MeanOk(q, t) == q = t[Len(t)] - t[1]
VarOk(q, t) == LET d == Steps(t) m == Len(d) IN AbsF(q - (m * SumF(LAMBDA k : d[k] * d[k], m) - (t[Len(t)] - t[1]) * (t[Len(t)] - t[1]))) <= 1
MinOf(x) == CHOOSE v \in {x[k] : k \in DOMAIN x} : \A k \in DOMAIN x : v <= x[k]
MaxOf(x) == CHOOSE v \in {x[k] : k \in DOMAIN x} : \A k \in DOMAIN x : v >= x[k]
=============================================================================

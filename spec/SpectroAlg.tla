----------------------------- MODULE SpectroAlg -------------------------------
(* Design of the spectrogram: the bookkeeping of windows, their times and
   frequencies, for every number of samples and window.  A step takes one
   window.  The frequency of rank k of 2h+1 samples is k / (2h+1), that of the
   table of frequencies must be the same: the table of as many samples as the
   window asked for (Table = "asked") is not, as soon as that number is even.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxWin
VARIABLES n, win, i, taken
vars == <<n, win, i, taken>>
h == win \div 2
Count == (n - 1) \div h - 1
Init == n \in 6..MaxN /\ win \in 4..MaxWin /\ 2 * (win \div 2) + 1 <= n /\ i = 0 /\ taken = <<>>
Take == i < Count /\ taken' = Append(taken, [first |-> h * i, last |-> h * (i + 2), time |-> h + i * h]) /\ i' = i + 1 /\ UNCHANGED <<n, win>>
Next == Take
Spec == Init /\ [][Next]_vars
Within == \A k \in DOMAIN taken : taken[k].first >= 0 /\ taken[k].last <= n - 1
Centre == \A k \in DOMAIN taken : 2 * taken[k].time = taken[k].first + taken[k].last
AtLeastOne == Count >= 1
Complete == i = Count => h * (i + 2) > n - 1
\* rank k of a window of 2h+1 samples, and what a table of as many samples holds at place k
Rank(k, m) == IF k <= (m - 1) \div 2 THEN k ELSE k - m
Ranks == \A k \in 0..h : Rank(k, 2 * h + 1) = k
AskedIsWrong == win % 2 = 0 => Rank(h, win) # h
=============================================================================

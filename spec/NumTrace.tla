------------------------------ MODULE NumTrace --------------------------------
EXTENDS NumRel, TraceLib
VARIABLES c, l
Ncl(t, p) == IF p THEN {} ELSE {t}
SpectrumFails(e) ==
  LET t == Cut(e.t, e.lo, e.hi) n == Len(t) IN
  Ncl("frequencies are those of the selected samples", Len(e.freq) = n /\ \A k \in 1..n : AbsF(e.freq[k] - 1000 * Rank(k - 1, n)) <= 1)
  \cup Ncl("one spectrum per field", Len(e.amp) = Len(e.x))
  \cup (IF Len(e.amp) # Len(e.x) THEN {} ELSE
        Ncl("amplitudes are those of the discrete Fourier transform of the selected samples",
            \A f \in DOMAIN e.x : LET x == Cut(e.x[f], e.lo, e.hi) IN Len(e.amp[f]) = n /\ \A k \in 1..n : AmpOk(e.amp[f][k], x, k - 1)))
SpectrogramFails(e) ==
  LET n == Len(e.t) w == IF e.win = 0 THEN n \div 100 ELSE e.win h == w \div 2 nw == Windows(n, h) IN
  Ncl("times are the middles of the windows", Len(e.time) = nw /\ \A i \in 1..nw : e.time[i] = e.t[h * i + 1])
  \cup Ncl("frequencies are those of the samples of a window", Len(e.freq) = h - 1 /\ \A k \in 1..(h - 1) : AbsF(e.freq[k] - 1000 * (k + 1)) <= 1)
  \cup Ncl("amplitudes are those of the samples of each window, weighted",
           Len(e.amp) = Len(e.x) /\ \A f \in DOMAIN e.x : Len(e.amp[f]) = nw /\ \A i \in 1..nw : Len(e.amp[f][i]) = h - 1 /\ \A k \in 1..(h - 1) : WinAmpOk(e.amp[f][i][k], e.x[f], i - 1, k + 1, h))
FreqmapFails(e) ==
  LET n == Len(e.x[1]) r == n \div 200 - 1 IN
  Ncl("frequencies drawn are those of the samples", Len(e.freq) = r /\ \A k \in 1..r : AbsF(e.freq[k] - 1000 * k) <= 1)
  \cup Ncl("one column per position", e.pos = [k \in DOMAIN e.x |-> k])
  \cup Ncl("amplitudes drawn are those of the discrete Fourier transform in time",
           Len(e.amp) = r /\ \A k \in 1..r : Len(e.amp[k]) = Len(e.x) /\ \A p \in DOMAIN e.x : CloseAmp(e.amp[k][p], ReF(e.x[p], k, S), ImF(e.x[p], k, S), 2 + n \div 500))
\* a spectrum needs an evolution in time; names asked for, names got
SetFails(e, axes) == Ncl("the fields asked for, and only those", {e.got[k] : k \in DOMAIN e.got} = {e.names[k] : k \in DOMAIN e.names} \cup axes)
                     \cup Ncl("the samples are not changed", e.kept)
Fails(e) ==
  IF ~e.timed THEN Ncl("a transform without an evolution in time is refused", e.exc # "") ELSE
  IF e.exc # "" THEN {"fails: " \o e.exc} ELSE
  CASE e.op = "value" -> Ncl("one set of weights per position", Len(e.w) = Len(e.xs)) \cup
                         Ncl("weights give back polynomials", \A k \in DOMAIN e.w : Len(e.w[k]) = e.order /\ Exact(e.order, 1250 * e.xs[k], e.w[k]))
    [] e.op = "grad" -> Ncl("one set of weights per position", Len(e.w) = Len(e.xs)) \cup
                        Ncl("weights give back derivatives of polynomials", \A k \in DOMAIN e.w : Len(e.w[k]) = e.order /\ ExactDer(e.order, 1250 * e.xs[k], e.w[k]))
    [] e.op = "spectrum" -> SetFails(e, {"freq"}) \cup SpectrumFails(e)
    [] e.op = "spectrogram" -> SetFails(e, {"freq", "time"}) \cup SpectrogramFails(e)
    [] e.op = "freqmap" -> FreqmapFails(e)
    [] e.op = "dtstats" -> LET t == Cut(e.t, e.lo, e.hi) IN Ncl("statistics of the steps of time", e.n = Len(t) /\ MeanOk(e.mean, t) /\ VarOk(e.var, t))
    [] e.op = "minavgmax" -> Ncl("least, average and greatest value", e.res = <<MinOf(e.x), SumF(LAMBDA k : e.x[k], Len(e.x)), MaxOf(e.x)>>)
    [] e.op = "distance" -> Ncl("distance of positions", Len(e.res) = Len(e.a) /\ \A k \in DOMAIN e.a : e.res[k] = SumF(LAMBDA m : (e.a[k][m] - e.b[k][m]) * (e.a[k][m] - e.b[k][m]), 3))
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(Cases[c].ev[l + 1]) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================

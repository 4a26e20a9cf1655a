------------------------------- MODULE MC_C28 -------------------------------
(* Filtering of spectral leakage: signals made of lines at known frequencies *)
(* that fill no whole number of periods of the signal.                       *)
EXTENDS ScenF

Flat(sh, ix) == Offset(sh, ix, 1, 0) + 1

\* drawn subset of 0..(n - 1), at least one positive
PickH(i, b, n) ==
  LET s == SelectIdx(n, LAMBDA k : D(i, b + k, 3) # 0) t == SelectSeq(s, LAMBDA k : k > 1)
  IN IF t = <<>> THEN Append(s, 2 + D(i, b + 40, n - 1)) ELSE s
\* number of samples and parts of a bin a line may be away from it
Samples == << [n |-> 4, e |-> << Zero, <<1, 3>>, <<-1, 3>>, <<1, 4>>, <<2, 5>> >>], [n |-> 6, e |-> << Zero, <<1, 4>>, <<-1, 4>>, <<1, 3>> >>],
              [n |-> 8, e |-> << Zero, <<1, 3>>, <<-1, 3>> >>], [n |-> 12, e |-> << Zero, Zero, <<1, 2>> >>], [n |-> 6, e |-> << <<1, 4>>, <<-1, 4>> >>] >>
TimeL(i, c, h) ==
  LET sym == IF \A k \in 1..Len(c.e) : c.e[k] = Zero THEN P(i, 13, << NoSym, Per(2), Per(3), APer(2) >>) ELSE NoSym
      n == IF sym.t = "aper" THEN c.n \div 2 ELSE c.n
  IN [AsLin(MkAxis("time", "s", 0, GridX(Zero, h, n), sym), D(i, 14, 7)) EXCEPT !.norms =
        IF D(i, 15, 3) = 0 THEN <<[name |-> "elec", k |-> "ref", u |-> "SI", p |-> I(3), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
\* the samples are exact lines in a third of the cases, and may then be stored on a period
Choice(i) == LET c == P(i, 10, Samples) IN
  IF D(i, 11, 3) = 0 THEN [n |-> c.n, e |-> <<Zero>>]
  ELSE [c EXCEPT !.e = SelectSeq(@, LAMBDA q : RLt(RMul(q, q), <<1, 4>>))]
LinesL(i, c, h, t) ==
  LET df == RInv(RMul(h, I(c.n)))
      m == [k \in 1..(c.n \div 2) |-> k - 1]
      at == PickH(i, 20, c.n \div 2)
      \* half periods of opposite sign have odd lines only
      odd == SelectSeq([k \in 1..(c.n \div 4 + 1) |-> 2 * k], LAMBDA k : k <= c.n \div 2)
  IN TLCEval([k \in 1..Len(IF t.sym.t = "aper" THEN odd ELSE at) |->
       LET q == (IF t.sym.t = "aper" THEN odd ELSE at)[k] - 1 IN RMul(df, RAdd(I(q), IF q = 0 THEN Zero ELSE P(i, 30 + k, c.e)))])
AngleL(i, n) == AsLin(MkAxis("angle", "rad", 1, GridX(Zero, Q(2, n), n), NoSym), D(i, 16, 7))
WaveL(n) == MkAxis("wavenumber", "dimless", 0, GridX(I(-(n \div 2)), One, n), NoSym)
\* the lines: frequencies x, n wavenumbers (0: none), third axis
SpectrumL(i, x, t, n, third, real) ==
  LET f == [MkAxis("freqs", "Hz", 0, x, NoSym) EXCEPT !.norms = t.norms]
      axes == <<f>> \o (IF n = 0 THEN <<>> ELSE <<WaveL(n)>>) \o third
      sh == [d \in 1..Len(axes) |-> NStored(axes[d])]
      any(k) == Complex(ValOf(i, k), ValOf(i + 1, k))
      \* amplitudes at zero frequency belong to a real signal
      val(j) == LET ix == Unflat(sh, j) IN
        IF x[ix[1]] # Zero \/ ~real THEN any(j)
        ELSE IF n = 0 THEN ValOf(i, j)
        ELSE LET r == ix[2] - 1 - (n \div 2)
                 m == Flat(sh, [ix EXCEPT ![2] = (n \div 2) + 1 - r])
             IN IF r = 0 \/ 2 * r = -n THEN ValOf(i, j) ELSE IF r > 0 THEN any(j) ELSE CConj(any(m))
  IN [MkField("DataFreq", axes, TLCEval([j \in 1..NVals(axes) |-> val(j)])) EXCEPT
        !.real = real, !.name = P(i, 4, <<"Field", "Radial flux">>), !.sym = P(i, 6, <<"X", "B_r">>), !.unit = P(i, 7, <<"T", "dimless">>),
        !.norms = IF D(i, 8, 3) = 0 THEN <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> I(4), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
\* the signal of a spectrum on the stored samples of time and angle
SignalL(S, t, a) ==
  LET n == Len(S.axes) two == n > 1 /\ S.axes[2].name = "wavenumber"
      rs == <<Data("time", t.x)>> \o (IF two THEN <<WithE(Data("angle", a.x), 1)>> ELSE <<>>) \o [d \in 1..(n - (IF two THEN 2 ELSE 1)) |-> Whole(S.axes[d + (IF two THEN 2 ELSE 1)].name)]
      v == TLCEval(HarmAnswer(S, rs, FALSE).v)
  IN [S EXCEPT !.cls = "DataTime", !.val = v, !.axes = [d \in 1..n |-> IF d = 1 THEN t ELSE IF d = 2 /\ two THEN a ELSE S.axes[d]]]
Third(i) == CASE D(i, 40, 8) = 0 -> <<MkAxis("z", "m", 0, <<Zero, One, I(3)>>, NoSym)>>
              [] D(i, 40, 8) = 1 -> <<CompD(i, 41, "phase", 3)>>
              [] D(i, 40, 8) = 2 -> <<MkAxis("x", "m", 0, <<Zero, One>>, Per(2))>>
              [] D(i, 40, 8) = 3 -> <<[MkAxis("z", "m", 0, <<Zero, One>>, NoSym) EXCEPT !.pat = [on |-> TRUE, idx |-> <<1, 2, 1>>, whole |-> <<Zero, One, I(2)>>, step |-> FALSE]]>>
              [] OTHER -> <<>>
\* frequencies as given: only from zero on or both signs, in any order, some beyond the range of the signal
Given(i, x, c, h) ==
  LET both == [k \in 1..Len(x) |-> RNeg(x[k])] \o SelectSeq(x, LAMBDA f : f # Zero)
      far == RInv(h)
  IN CASE D(i, 50, 5) = 0 -> Perm(i, 51, x)
       [] D(i, 50, 5) = 1 -> Append(x, far)
       [] D(i, 50, 5) = 2 -> [k \in 1..Len(both) |-> IF k <= Len(x) THEN both[Len(x) + 1 - k] ELSE both[k]]
       [] OTHER -> x
Scene(i) ==
  LET c == Choice(i) h == P(i, 12, << One, <<1, 2>>, <<1, 8>>, I(2) >>)
      t == TimeL(i, c, h) x == LinesL(i, c, h, t)
      n == IF D(i, 42, 2) = 0 THEN 0 ELSE P(i, 43, IF c.n > 6 THEN <<2, 3, 4>> ELSE <<2, 4, 3, 6, 5>>)
      real == D(i, 44, 4) # 0
      neg == SelectSeq([k \in 1..Len(x) |-> RNeg(x[Len(x) + 1 - k])], LAMBDA f : f # Zero)
      S == TLCEval(SpectrumL(i, IF real THEN x ELSE neg \o x, t, n, IF c.n > 6 /\ n > 2 THEN <<>> ELSE Third(i), real))
  IN [S |-> S, sig |-> TLCEval(SignalL(S, t, IF n = 0 THEN t ELSE AngleL(i, n))), fs |-> Given(i, x, c, h)]
K == Budget(400, 4000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Unleak(o, s) == [m |-> "unleak", o |-> o, fs |-> s.fs, lines |-> s.S]
\* a vector of fields made of the same lines, with other amplitudes
Also(i, s) ==
  LET S == [s.S EXCEPT !.val = TLCEval([j \in 1..Len(@) |-> Mul(I(1 + D(i, 60, 3)), IF D(i, 61, 2) = 0 /\ s.S.real THEN @[j] ELSE Neg(@[j])) ])]
  IN [S |-> S, sig |-> TLCEval(SignalL(S, s.sig.axes[1], s.sig.axes[Min2(2, Len(s.sig.axes))])), fs |-> s.fs]
Vector(i, A) == MkVec("Flux", "B", [k \in 1..2 |-> [key |-> P(i, 62, << <<"radial", "tangential">>, <<"comp_x", "axial">> >>)[k], f |-> A[k]]])
Next == log = <<>> /\ \E i \in {cid} : LET s == TLCEval(Scene(i)) r == TLCEval(Also(i, s)) IN
  CASE D(i, 63, 5) = 0 -> CallN(i, <<Vector(i, <<s.sig, r.sig>>)>>, <<[m |-> "unleak", o |-> 1, fs |-> s.fs, lines |-> Vector(i, <<s.S, r.S>>)]>>)
    \* a spectrum, whose signal has an even number of samples
    [] D(i, 63, 5) = 1 -> CallN(i, <<s.sig>>, <<On("time_to_freq", 1), Unleak(2, s)>>)
    [] OTHER -> CallN(i, <<s.sig>>, <<Unleak(1, s)>>)
Spec == Init /\ [][Next]_vars

\* lines that are exact are those of the spectrum of the signal
EqC(x, y) == CEq(x, y)
OnGrid ==
  (log # <<>> /\ ~IsVec(heap[1])) => LET o == heap[1] S == log[Len(log)].ans.obj G == TLCEval(FreqField(o)) IN
    \A j \in 1..Len(S.val) :
      LET sh == StoredShape(S) ix == Unflat(sh, j)
          q == {p \in 1..Len(G.axes[1].x) : G.axes[1].x[p] = S.axes[1].x[ix[1]]}
      IN (\A p \in 1..Len(S.axes[1].x) : \E r \in 1..Len(G.axes[1].x) : G.axes[1].x[r] = S.axes[1].x[p]) =>
           \A p \in q : EqC(G.val[Flat(StoredShape(G), [ix EXCEPT ![1] = p])], S.val[j])
=============================================================================

------------------------------- MODULE MC_C20 -------------------------------
(* Rotating frames and stored periodicities of time-angle(-z) fields.        *)
EXTENDS ScenF

\* time and angle axes from zero; symmetric lines when odd
SizeR(i, b, sym, odd) == IF sym.t = "aper" THEN (IF odd THEN 2 ELSE 1 + D(i, b, 2)) ELSE IF odd THEN 3 + 2 * (D(i, b, 3) \div 2) ELSE 2 + D(i, b, 4)
TimeR(i, b, odd) ==
  LET sym == P(i, b, << NoSym, NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>) n == SizeR(i, b + 1, sym, odd)
      h == P(i, b + 2, << One, <<1, 2>>, <<1, 8>>, <<1, 5>> >>)
      a == MkAxis("time", "s", 0, GridX(Zero, h, n), sym)
  IN AsLin(IF n = 1 THEN [a EXCEPT !.delta = h] ELSE a, D(i, b + 3, 8))
AngleR(i, b, odd) ==
  LET sym == P(i, b, << NoSym, NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>) n == SizeR(i, b + 1, sym, odd)
      a == MkAxis("angle", "rad", 1, GridX(Zero, Q(2, n * sym.n), n), sym)
  IN AsLin(IF n = 1 THEN [a EXCEPT !.delta = Q(2, sym.n)] ELSE a, D(i, b + 3, 8))
RestR(i, b) ==
  CASE D(i, b, 4) = 0 -> <<>>
    [] D(i, b, 4) = 1 -> <<AxisD(i, b + 1, "z", 1, 2, <<NoSym>>)>>
    [] OTHER -> <<[MkAxis("z", "m", 0, <<Zero, One>>, NoSym) EXCEPT !.pat = [on |-> TRUE, step |-> TRUE, whole |-> <<Zero, One, One, I(2)>>, idx |-> <<1, 1, 2, 2>>]]>>
Cpx(i, j) == Simp(Cyc(4, <<I(D(i, 400 + j, 9) - 4), I(D(i, 500 + j, 9) - 4), Zero, Zero>>))
OnAxes(i, b, axes, real) ==
  [MkField("DataTime", axes, TLCEval([j \in 1..NVals(axes) |-> IF real THEN ValOf(i, b + j) ELSE Cpx(i, b + j)]))
     EXCEPT !.real = real, !.unit = "T", !.sym = "B", !.name = P(i, 31, <<"Flux", "Field">>)]
Sampled(i, odd) == OnAxes(i, 0, <<TimeR(i, 100, odd), AngleR(i, 110, odd)>> \o RestR(i, 120), D(i, 2, 4) # 0)
\* spectra with lines anywhere
FreqsR(i, real) == LET neg == P(i, 130, << <<-5, 2>>, I(-1), <<-1, 3>> >>) x == P(i, 131, << <<Zero>>, <<Zero, One>>, <<Zero, One, <<5, 2>>>>, <<One, I(2)>>, <<<<1, 2>>>> >>)
                   IN MkAxis("freqs", "Hz", 0, IF real THEN x ELSE <<neg>> \o x, NoSym)
WaveR(i) == MkAxis("wavenumber", "dimless", 0, P(i, 132, << <<I(-1), Zero, One>>, <<I(-2), Zero, I(2)>>, <<I(-3), I(-1), One, I(3)>>, <<I(-2), I(-1), Zero, One, I(2)>> >>), NoSym)
\* a real field has conjugate values at opposite wavenumbers of frequency zero
SpectrumR(i) ==
  LET real == D(i, 2, 3) # 0 axes == <<FreqsR(i, real), WaveR(i)>> \o RestR(i, 120)
      nr == Len(axes[2].x) m == NVals(<<axes[1]>> \o SubSeq(axes, 3, Len(axes))) \div Len(axes[1].x)
      v(j) == LET ix == Unflat(<<Len(axes[1].x), nr, m>>, j) opp == (nr + 1 - ix[2] - 1) * m + ix[3] IN
              \* lines absent from a slice
              IF m > 1 /\ D(i, 14, 2) = 0 /\ ix[3] = 1 + (D(i, 17, 2) % m) /\ (D(i, 18, 2) = 0 \/ ix[1] = 1 + D(i, 19, Len(axes[1].x))) THEN Zero
              ELSE IF ~real \/ axes[1].x[ix[1]] # Zero \/ 2 * ix[2] < nr + 1 THEN Cpx(i, j)
              ELSE IF 2 * ix[2] = nr + 1 THEN I(D(i, 400 + j, 9) - 4) ELSE Simp(CConj(Cpx(i, opp)))
  IN [MkField("DataFreq", axes, TLCEval([j \in 1..NVals(axes) |-> v(j)])) EXCEPT !.real = real, !.unit = "T", !.sym = "B"]
\* a field with few or no lines
Quiet(i, f) == [f EXCEPT !.val = TLCEval([j \in 1..Len(f.val) |-> IF D(i, 15, 2) = 0 \/ f.axes[1].x[((j - 1) \div (Len(f.val) \div Len(f.axes[1].x))) + 1] = Zero THEN Zero ELSE f.val[j]])]
SpeedR(i, b, o) ==
  LET t == o.axes[1] df == IF t.name # "time" \/ NFull(t) = 1 THEN One ELSE RInv(RMul(I(NOne(t)), RSub(FullX(t)[2], FullX(t)[1])))
  IN P(i, b, << Zero, df, RNeg(df), RMul(<<1, 2>>, df), RMul(I(2), df), RMul(I(-3), df), <<1, 3>>, <<-1, 4>>, I(2), I(-2) >>)
Turn(o, s, i) == [m |-> "rotate", o |-> o, wave |-> FALSE, s |-> s, step |-> 0, tsym |-> NoSym, drop |-> D(i, 3, 3) # 0, ask |-> FALSE]
\* speeds that move the samples onto samples; symmetries of time that hold in the new frame
ShiftStep(a, t, k) == LET h == RSub(FullX(t)[2], FullX(t)[1]) IN RDiv(RMul(I(k), RSub(FullX(a)[2], FullX(a)[1])), RMul(I(2), h))
Move(o, k, t, a, tsym) == [m |-> "rotate", o |-> o, wave |-> TRUE, s |-> ShiftStep(a, t, k), step |-> k, tsym |-> tsym, drop |-> FALSE, ask |-> TRUE]
\* the symmetry of time after a shift by k steps of angle per step of time
NewTime(t, a, k) ==
  LET n == NOne(t) na == NOne(a) half == a.sym.t = "aper" /\ na % 2 = 0 IN
  IF t.sym.t = "none" THEN NoSym
  ELSE IF t.sym.t = "aper" /\ (k * NStored(t)) % na = 0 THEN t.sym
  ELSE IF (k * n) % na = 0 THEN (IF Periods(t) = 1 THEN NoSym ELSE Per(Periods(t)))
  ELSE [t |-> "lost", n |-> 0]
StepsR(i, t, a) == SelectSeq(Perm(i, 90, <<0, 1, -1, 2, -2, 3, -4, 6>>), LAMBDA k : NewTime(t, a, k).t # "lost")
VecR(i, base) == MkVec("Flux", "B", TLCEval([k \in 1..2 |-> [key |-> P(i, 40, << <<"radial", "tangential">>, <<"comp_x", "comp_y">>, <<"tangential", "axial">> >>)[k],
                                                               f |-> LET g == OnAxes(i, 150 * k, base.axes, base.real) IN IF k = 1 /\ D(i, 16, 4) = 0 THEN [g EXCEPT !.val = [j \in 1..Len(@) |-> Zero]] ELSE g]]))
Few(i, b, n) == LET S == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : n % k = 0) IN P(i, b, S)
CaseR(i) ==
  LET k == D(i, 1, 6) IN
  CASE k \in {0, 4} ->
         LET f == TLCEval(Sampled(i, TRUE)) o == IF k = 0 THEN f ELSE TLCEval(VecR(i, f)) s == SpeedR(i, 5, f) s2 == SpeedR(i, 6, f)
         IN [o |-> o, calls |-> IF ~CanRotate(f) \/ NOne(f.axes[1]) * NOne(f.axes[2]) > 25 \/ Lcm(IF f.real THEN 1 ELSE 4, Lcm(NOne(f.axes[1]), NOne(f.axes[2]))) > 20 \/ Len(f.val) > 30 THEN <<>> ELSE <<Turn(1, s, i), Turn(2, s2, i), Turn(3, RNeg(s2), i), Turn(2, RNeg(s), i)>>]
    [] k = 1 ->
         LET f == TLCEval(SpectrumR(i)) s == SpeedR(i, 5, f) s2 == SpeedR(i, 6, f)
             T(o, v) == [Turn(o, v, i) EXCEPT !.ask = D(i, 10 + o, 4) = 0]       \* spectra have no samples to move
         IN [o |-> IF D(i, 4, 3) = 0 THEN TLCEval(MkVec("Flux", "B", <<[key |-> "radial", f |-> Quiet(i, f)], [key |-> "axial", f |-> f]>>)) ELSE f,
             calls |-> <<T(1, s), T(2, s2), T(3, RNeg(s2)), T(2, RNeg(s))>>]
    [] k \in {2, 3} ->
         LET g == TLCEval(Sampled(i, FALSE))
             f == [g EXCEPT !.axes = [@ EXCEPT ![1].x = IF D(i, 7, 4) = 0 THEN [j \in 1..Len(@) |-> RAdd(@[j], RMul(I(2), RSub(FullX(g.axes[1])[2], FullX(g.axes[1])[1])))] ELSE @,
                                                ![1].lin = IF D(i, 7, 4) = 0 THEN NoLin ELSE @,
                                                ![2].x = IF D(i, 8, 4) = 0 THEN [j \in 1..Len(@) |-> RAdd(@[j], <<1, 4>>)] ELSE @,
                                                ![2].lin = IF D(i, 8, 4) = 0 THEN NoLin ELSE @]]
             t == f.axes[1] a == f.axes[2]
             o == IF k = 2 THEN f ELSE TLCEval(VecR(i, f)) ks == StepsR(i, t, a) q == ks[1]
         IN IF NStored(t) = 1 \/ NStored(a) = 1 THEN [o |-> o, calls |-> <<>>]
            ELSE [o |-> o, calls |-> <<Move(1, q, t, a, NewTime(t, a, q)), Move(2, -q, t, a, IF D(i, 9, 2) = 0 /\ t.sym.t = "aper" THEN (IF Periods(t) = 1 THEN NoSym ELSE Per(Periods(t))) ELSE t.sym)>>]
    [] OTHER ->
         LET f == TLCEval(Sampled(i, FALSE)) V == TLCEval(VecR(i, f)) t == f.axes[1] a == f.axes[2]
             nt == Few(i, 80, Periods(t)) na == Few(i, 81, Periods(a))
             c(o, p, q) == [m |-> "change_periodicity", o |-> o, nt |-> p, na |-> q, apert |-> t.sym.t = "aper" /\ D(i, 82, 2) = 0, apera |-> a.sym.t = "aper" /\ D(i, 83, 2) = 0]
         IN [o |-> V, calls |-> <<c(1, nt, na), c(2, Few(i, 84, nt), Few(i, 85, na))>>]
K == Budget(700, 7000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET c == TLCEval(CaseR(i)) r == TLCEval(Run(<<c.o>>, c.calls)) IN
  /\ heap' = r.heap /\ log' = IF r.log = <<>> THEN <<[call |-> [m |-> "none"], ans |-> [k |-> "ok"]]>> ELSE r.log
  /\ cid' = i
  /\ (r.log # <<>> => Write([id |-> i, objs |-> <<c.o>>, steps |-> r.log, watch |-> TRUE]))
Spec == Init /\ [][Next]_vars

\* turning by opposite speeds gives the lines of the field back
Comps(o) == IF IsVec(o) THEN [k \in 1..Len(o.comps) |-> o.comps[k].f] ELSE <<o>>
Same(a, b) ==
  LET A == TLCEval(Rotated(a, Zero).lines) B == TLCEval(Rotated(b, Zero).lines) IN
  /\ Len(A) = Len(B)
  /\ \A j \in 1..Len(A) : \E k \in 1..Len(B) : A[j].f = B[k].f /\ A[j].r = B[k].r /\ A[j].k = B[k].k /\ CEq(A[j].v, B[k].v)
Spectral(k) == log[k].call.m = "rotate" /\ ~log[k].call.wave /\ log[k].ans.k = "obj"
Undone == (Len(log) = 4 /\ \A k \in 1..4 : Spectral(k)) =>
  \A q \in 1..Len(Comps(heap[1])) : Same(Comps(heap[1])[q], Comps(heap[5])[q]) /\ Same(Comps(heap[2])[q], Comps(heap[4])[q])
\* moved samples are those of the moved lines
RECURSIVE Wave(_, _, _, _, _)
Wave(L, t, th, j, acc) ==
  IF j > Len(L) THEN acc
  ELSE LET ph == RAdd(RMul(L[j].f, t), RMul(<<1, 2>>, RMul(L[j].r, th)))
       IN Wave(L, t, th, j + 1, CAdd(acc, CMul(L[j].v, Root(ph[2], ph[1], One))))
Alike ==
  \A k \in 1..Len(log) : (log[k].call.m = "rotate" /\ log[k].call.wave /\ k = 1 /\ ~IsVec(heap[1]) /\ Len(heap[1].axes) = 2 /\ Len(heap[1].val) <= 9
                          /\ heap[1].axes[1].x[1] = Zero /\ heap[1].axes[2].x[1] = Zero) =>
    LET f == heap[1] g == heap[2] R == TLCEval(Rotated([f EXCEPT !.real = FALSE], log[k].call.s)) sh == StoredShape(g)
    IN \A j \in 1..Len(g.val) : LET ix == Unflat(sh, j) w == Wave(R.lines, g.axes[1].x[ix[1]], g.axes[2].x[ix[2]], 1, Zero)
                                IN (InPhi(w) => CEq(w, g.val[j]))
=============================================================================

-------------------------------- MODULE Rot ---------------------------------
(***************************************************************************)
(* Change of rotating frame and of stored periodicity.                     *)
(* Rotated spectra are sets of lines <<frequency, wavenumber, rest>>, each *)
(* with an amplitude; lines that are not listed are zero.                  *)
(***************************************************************************)
EXTENDS Vec, SequencesExt

IsLines(o) == "cls" \in DOMAIN o /\ o.cls = "Lines"
\* one entry per stored line: [f, r, k (entry of the other axes), v]
Entries(g) ==
  LET sh == StoredShape(g) rest == ProdR(sh, 3, Len(sh)) IN
  TLCEval([j \in 1..Len(g.val) |-> LET ix == Unflat(sh, j) IN
    [f |-> g.axes[1].x[ix[1]], r |-> g.axes[2].x[ix[2]], k |-> ((j - 1) % rest) + 1, v |-> g.val[j]]])
\* all lines of a field, both signs of frequency
Mirror(e) == [e EXCEPT !.f = RNeg(e.f), !.r = RNeg(e.r), !.v = Simp(CConj(e.v))]
Half(e) == [e EXCEPT !.v = Mul(<<1, 2>>, e.v)]
RECURSIVE Unfold(_, _, _)
Unfold(E, j, acc) ==
  IF j > Len(E) THEN acc
  ELSE Unfold(E, j + 1, IF RLt(Zero, E[j].f) THEN acc \o <<Half(E[j]), Mirror(Half(E[j]))>> ELSE Append(acc, E[j]))
AllLines(o) ==
  IF IsLines(o) THEN (IF o.real THEN Unfold(o.lines, 1, <<>>) ELSE o.lines)
  ELSE IF o.cls = "DataFreq" THEN (IF o.real THEN Unfold(Entries(o), 1, <<>>) ELSE Entries(o))
  ELSE Entries(TLCEval(FreqField([o EXCEPT !.real = FALSE])))
\* amplitudes of coincident lines add up
RECURSIVE SumAt(_, _, _, _)
SumAt(E, key, j, acc) ==
  IF j > Len(E) THEN acc
  ELSE SumAt(E, key, j + 1, IF <<E[j].f, E[j].r, E[j].k>> = key THEN Add(acc, E[j].v) ELSE acc)
Merged(E) ==
  LET K == TLCEval(SetToSeq({<<E[j].f, E[j].r, E[j].k>> : j \in 1..Len(E)}))
  IN TLCEval([m \in 1..Len(K) |-> [f |-> K[m][1], r |-> K[m][2], k |-> K[m][3], v |-> Simp(SumAt(E, K[m], 1, Zero))]])
\* s turns per second; real fields keep the lines of positive frequency, with their amplitude, and those of frequency zero
Rotated(o, s) ==
  LET all == AllLines(o)
      E == Merged(TLCEval([j \in 1..Len(all) |-> [all[j] EXCEPT !.f = RAdd(all[j].f, RMul(all[j].r, s))]]))
      pos == SelectSeq(E, LAMBDA e : ~RLt(e.f, Zero))
      L == TLCEval(IF o.real THEN [j \in 1..Len(pos) |-> IF pos[j].f = Zero THEN pos[j] ELSE [pos[j] EXCEPT !.v = Mul(I(2), pos[j].v)]] ELSE E)
  IN [cls |-> "Lines", name |-> o.name, sym |-> o.sym, unit |-> o.unit, real |-> o.real, rest |-> IF IsLines(o) THEN o.rest ELSE ProdR(StoredShape(o), 3, Len(o.axes)),
      lines |-> SelectSeq(L, LAMBDA e : ~(InPhi(e.v) /\ e.v = Zero))]
\* real fields: no line is its own mirror image but that of frequency and wavenumber zero
Mirrored(x) == \A j \in 1..Len(x) : \E k \in 1..Len(x) : x[k] = RNeg(x[j])
CanRotate(o) ==
  IsLines(o) \/ ~o.real
  \/ IF o.cls = "DataFreq" THEN Mirrored(o.axes[2].x)
     ELSE Mirrored(SpectralAxis(o.axes[1], FALSE).x) /\ Mirrored(SpectralAxis(o.axes[2], FALSE).x)
\* samples: the angle moves by k of its steps per step of time; tsym: symmetry of time in the new frame
RotatedSamples(o, k, tsym) ==
  LET A == TLCEval(FullArr([o EXCEPT !.axes = SubSeq(o.axes, 1, 2) \o [d \in 1..(Len(o.axes) - 2) |-> [o.axes[d + 2] EXCEPT !.sym = NoSym, !.pat = NoPat]]]))
      t == o.axes[1] a == o.axes[2] h == RSub(FullX(t)[2], FullX(t)[1])
      t0 == RDiv(t.x[1], h)[1]
      nt == IF tsym.t = "aper" THEN NOne(t) \div 2 ELSE NOne(t)
      axT == [t EXCEPT !.x = SubSeq(FullX(t), 1, nt), !.sym = tsym, !.lin = NoLin, !.delta = h]
      sh == [A.sh EXCEPT ![1] = nt, ![2] = NStored(a)]
      n == Prod(sh)
  IN [o EXCEPT !.axes = [@ EXCEPT ![1] = axT, ![2] = [@ EXCEPT !.lin = NoLin]], !.ints = FALSE,
        !.val = TLCEval([j \in 1..n |-> LET ix == Unflat(sh, j)
                   IN At(A, [ix EXCEPT ![2] = ((ix[2] - 1 + k * (t0 + ix[1] - 1)) % A.sh[2]) + 1])])]

(* ------------------------- stored periodicities ------------------------- *)
\* the axis over one of n periods
Periods(a) == IF a.sym.t = "aper" THEN a.sym.n \div 2 ELSE a.sym.n
Restored(a, n, aper) == LET same == n = Periods(a) /\ aper /\ a.sym.t = "aper" IN IF same THEN a ELSE Rewrite(a, n, FALSE)
Reperiod(f, nt, na, apert, apera) ==
  LET t == f.axes[1] a == f.axes[2]
      t1 == TLCEval(Restored(t, nt, apert)) a1 == TLCEval(Restored(a, na, apera))
      A == TLCEval(FullArr([f EXCEPT !.axes = SubSeq(f.axes, 1, 2) \o [d \in 1..(Len(f.axes) - 2) |-> [f.axes[d + 2] EXCEPT !.sym = NoSym, !.pat = NoPat]]]))
      sh == [A.sh EXCEPT ![1] = NStored(t1), ![2] = NStored(a1)]
  IN IF nt = Periods(t) /\ na = Periods(a) THEN f
     ELSE [f EXCEPT !.axes = [@ EXCEPT ![1] = t1, ![2] = a1], !.ints = FALSE,
             !.val = TLCEval([j \in 1..Prod(sh) |-> At(A, Unflat(sh, j))])]
=============================================================================

------------------------------- MODULE MC_C29 -------------------------------
(* Data drawn by plots: curves, bars and maps of fields and spectra, of one  *)
(* or several fields, with slices, operations, units and levels.             *)
EXTENDS ScenF

LayoutsP == << <<"time">>, <<"angle">>, <<"x">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>, <<"time", "x">>, <<"angle", "phase">>, <<"phase", "time">>,
               <<"time", "angle", "z">>, <<"z", "angle", "time">>, <<"x", "phase", "time">>, <<"freqs">>, <<"x", "freqs">>, <<"wavenumber", "freqs">>, <<"freqs", "wavenumber">> >>
LinesP(i, b, name) ==
  LET n == 2 + D(i, b, 4) IN
  MkAxis(name, IF name = "freqs" THEN "Hz" ELSE "dimless", 0, [j \in 1..n |-> IF name = "freqs" THEN I(50 * (j - 1)) ELSE I(j - 1 - (n \div 2))], NoSym)
AxesP(i) ==
  LET L == P(i, 1, LayoutsP) spec == \E d \in 1..Len(L) : L[d] = "freqs" IN
  [d \in 1..Len(L) |-> IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 3)
     ELSE IF L[d] \in {"freqs", "wavenumber"} THEN LinesP(i, 100 * d, L[d])
     ELSE IF L[d] \in {"time", "angle"} /\ D(i, 20 + d, 2) = 0 THEN AxisF(i, 100 * d, L[d], TRUE, 4)
     ELSE IF L[d] \in {"x", "z"} /\ D(i, 30 + d, 4) = 0 THEN UnevenD(i, 100 * d, L[d], 1, 4)
     ELSE AxisD(i, 100 * d, L[d], 2, IF Len(L) = 3 THEN 3 ELSE 4, IF Len(L) = 3 THEN << NoSym, NoSym, Per(2) >> ELSE Syms)]
FieldP(i, axes, s) ==
  LET n == NVals(axes) spec == \E d \in 1..Len(axes) : IsSpectral(axes[d]) IN
  [FieldOf(i, axes) EXCEPT
        !.cls = IF spec THEN "DataFreq" ELSE @,
        !.val = [j \in 1..n |-> IF spec THEN Complex(ValOf(i + s, j), ValOf(i + s + 1, j)) ELSE ValOf(i + s, j)],
        !.unit = P(i, 5, <<"T", "N", "W">>), !.sym = P(i, 6 + 5 * s, <<"X", "B_r">>), !.name = P(i, 7 + 5 * s, <<"Field", "Radial flux", "Other">>),
        !.norms = IF D(i, 8, 2) = 0 THEN <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> P(i, 9, << <<1, 50000>>, I(2) >>), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
\* axes of the other field: the same, or other coordinates
Stretched(a, f, n) == [MkAxis(a.name, a.unit, a.e, [j \in 1..n |-> IF j <= Len(a.x) THEN RMul(f, a.x[j]) ELSE RAdd(RMul(f, a.x[Len(a.x)]), RMul(RMul(f, StepOf(a)), I(j - Len(a.x))))], a.sym)
                         EXCEPT !.delta = RMul(f, a.delta)]
AxesQ(i, axes) ==
  [d \in 1..Len(axes) |->
     LET a == axes[d] IN
     IF a.comp \/ a.pat.on \/ a.e # 0 \/ D(i, 40, 2) = 0 THEN a
     ELSE Stretched(a, P(i, 41, << One, I(2), <<1, 2>> >>), Len(a.x) + (IF Len(a.x) = 1 THEN 0 ELSE D(i, 42, 2)))]
UnitOf(i, b, a) ==
  IF D(i, b, 3) # 0 THEN ""
  ELSE CASE a.name = "time" -> "ms" [] a.name = "angle" -> "°" [] a.name \in {"x", "z"} -> "mm" [] OTHER -> ""
\* several samples of an axis
MainP(i, b, a) ==
  LET u == UnitOf(i, b, a) n == NStored(a) IN
  IF a.comp THEN Whole(a.name)
  ELSE IF a.name \in {"time", "angle"} /\ a.x[1] = Zero /\ D(i, b + 1, 2) = 0
  THEN (IF D(i, b + 2, 3) = 0 THEN Gt(SpectralOf(a.name), P(i, b + 3, << One, <<1, 64>>, <<3, 2>> >>))
        ELSE IF D(i, b + 2, 3) = 1 THEN Ivl(SpectralOf(a.name), Zero, I(1 + D(i, b + 3, 3))) ELSE Whole(SpectralOf(a.name)))
  ELSE IF IsSpectral(a) THEN (IF D(i, b + 2, 3) = 0 THEN Gt(a.name, I(D(i, b + 3, 3) - 1)) ELSE Whole(a.name))
  ELSE CASE D(i, b + 2, 6) = 0 -> OnePer(a.name)
         [] D(i, b + 2, 6) = 1 -> Small(a.name)
         [] D(i, b + 2, 6) = 2 -> WithE(Gt(a.name, RAdd(a.x[1], <<1, 64>>)), a.e)
         [] OTHER -> InUnit(Whole(a.name), u)
\* one sample
SliceP(i, b, a) ==
  CASE D(i, b, 3) = 0 -> Op(a.name, P(i, b + 1, <<"sum", "mean", "max">>))
    [] a.comp \/ IsSpectral(a) \/ a.e # 0 \/ D(i, b, 3) = 1 -> Idx(a.name, <<D(i, b + 1, NStored(a))>>)
    [] OTHER -> WithE(Val(a.name, a.x[1 + D(i, b + 1, NStored(a))]), a.e)
\* some samples, one curve each
ListP(i, b, a) == LET n == NStored(a) k == D(i, b, n) IN
  IF D(i, b + 1, 2) = 0 THEN Idx(a.name, [j \in 1..n |-> j - 1]) ELSE Idx(a.name, <<k, (k + 1) % n>>)
ReqsP(i, b, o, nmain, list) ==
  LET S == Perm(i, b, SeqOf(Len(o.axes)))
      keep == SelectSeq([j \in 1..Len(S) |-> j], LAMBDA j : j <= nmain \/ (list /\ j = nmain + 1) \/ D(i, b + 10 + j, 4) # 0)
      req(j) == LET a == o.axes[S[j]] IN
        IF j <= nmain THEN MainP(i, b + 20 * j, a)
        ELSE IF list /\ j = nmain + 1 /\ NStored(a) > 1 THEN ListP(i, b + 20 * j, a) ELSE SliceP(i, b + 20 * j, a)
  IN [j \in 1..Len(keep) |-> req(keep[j])]
UnitP(i, b, o) == P(i, b, << "", "", "", IF o.unit = "T" THEN "mT" ELSE "SI", "dB", IF o.norms # <<>> THEN "->" ELSE "" >>)
CallP(i, k, o, n) ==
  LET b == 2000 + 200 * k flat == Len(o.axes) = 1 \/ D(i, b, 3) # 0
      reqs == TLCEval(IF flat THEN ReqsP(i, b + 20, o, 1, D(i, b + 1, 2) = 0) ELSE ReqsP(i, b + 20, o, 2, FALSE))
      u == UnitP(i, b + 2, o)
  IN IF flat THEN [m |-> "plot_2D", o |-> 1, others |-> IF n = 2 /\ D(i, b + 3, 2) = 0 THEN <<2>> ELSE <<>>, reqs |-> reqs, u |-> u,
                   type |-> IF AsksSpectrum(reqs) THEN P(i, b + 4, <<"", "", "bargraph">>) ELSE P(i, b + 4, <<"", "curve", "point", "curve_point", "">>)]
     ELSE [m |-> "plot_3D", o |-> 1, reqs |-> reqs, u |-> IF u = "->" \/ (u = "dB" /\ ~AsksSpectrum(reqs)) THEN "" ELSE u,
           type |-> IF AsksSpectrum(reqs) THEN "" ELSE P(i, b + 4, <<"", "pcolor", "pcolormesh">>), switch |-> D(i, b + 5, 4) = 0]
K == Budget(500, 5000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET axes == TLCEval(AxesP(i)) other == TLCEval(AxesQ(i, axes)) h == TLCEval(<<FieldP(i, axes, 0), FieldP(i, other, 1)>>)
      r == TLCEval(Run(h, TLCEval([k \in 1..4 |-> CallP(i, k, h[1], 2)]))) IN
  /\ heap' = r.heap /\ log' = r.log /\ cid' = i
  /\ Write([id |-> i, objs |-> h, steps |-> r.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

\* every curve has one ordinate per coordinate; a map has one value per point
Sized ==
  \A k \in 1..Len(log) : log[k].ans.k = "ok" =>
    LET a == log[k].ans len(x) == IF x.t = "lab" THEN Len(x.lab) ELSE Len(x.x) IN
    IF log[k].call.m = "plot_2D" THEN \A q \in 1..Len(a.curves) : Len(a.curves[q].y) = len(a.curves[q].x)
    ELSE Len(a.v) = len(a.x) * len(a.y)
\* exchanging the axes of a map exchanges its coordinates
Transposed ==
  \A k \in 1..Len(log) : (log[k].call.m = "plot_3D" /\ log[k].ans.k = "ok") =>
    LET a == log[k].ans c == log[k].call
        b == Mapped(heap[1], [c EXCEPT !.reqs = <<c.reqs[2], c.reqs[1]>> \o SubSeq(c.reqs, 3, Len(c.reqs))])
    IN b.x = a.y /\ b.y = a.x /\ \A p \in 1..a.sh[1], q \in 1..a.sh[2] : b.v[(q - 1) * a.sh[1] + p] = a.v[(p - 1) * a.sh[2] + q]
=============================================================================

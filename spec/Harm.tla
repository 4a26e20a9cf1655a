-------------------------------- MODULE Harm --------------------------------
(***************************************************************************)
(* Spectra at given instants and angles, signals at given frequencies and  *)
(* wavenumbers: plain sums over the lines, or over the samples.            *)
(***************************************************************************)
EXTENDS Mag

RECURSIVE LcmDen(_, _, _)
LcmDen(q, j, acc) == IF j > Len(q) THEN acc ELSE LcmDen(q, j + 1, Lcm(acc, q[j][2]))
\* sum of the entries of l, the j-th one turned by q[j] turns
PhasorSum(l, q) ==
  LET M == LcmFrom(l, 1, LcmDen(q, 1, 1))
      t == TLCEval([j \in 1..Len(q) |-> (q[j][1] * (M \div q[j][2])) % M])
  IN Simp(TurnSum(LiftLine(l, M), t, M))
\* turns made by a line of frequency f at the coordinate s (angles in multiples of pi)
Turns(name, f, s) == IF name \in {"angle", "wavenumber"} THEN RMul(<<1, 2>>, RMul(f, s)) ELSE RMul(f, s)
\* the values of the field on the asked coordinates X of the other side of axis a
Inverse(a, l, X) == TLCEval([k \in 1..Len(X) |-> PhasorSum(l, TLCEval([j \in 1..Len(a.x) |-> Turns(a.name, a.x[j], X[k])]))])
\* amplitudes of real signals count both signs of frequency when no negative one is asked
Forward(a, l, X, real) ==
  LET S == SubSeq(FullX(a), 1, NOne(a)) m == SubSeq(FullLine(a, l), 1, NOne(a)) N == Len(S)
      both == real /\ a.name = "time" /\ \A k \in 1..Len(X) : ~RLt(X[k], Zero)
  IN TLCEval([k \in 1..Len(X) |->
       Mul(Q(IF both /\ X[k] # Zero THEN 2 ELSE 1, N), PhasorSum(m, TLCEval([j \in 1..N |-> RNeg(Turns(a.name, X[k], S[j]))])))])
Asking(o, d, reqs) == LET a == o.axes[d].name IN
  reqs[CHOOSE j \in 1..Len(reqs) : reqs[j].ax = a \/ (SpectralOf(a) # "" /\ reqs[j].ax = SpectralOf(a)) \/ (IsSpectral(o.axes[d]) /\ reqs[j].ax = DirectOf(a))]
Listed(r) == r.f \in {"list", "data"}
\* coordinates asked on an axis, on its other side or its own
AskedX(o, d, r) ==
  LET a == o.axes[d] IN
  IF r.ax = a.name THEN a.x
  ELSE IF Listed(r) THEN r.vs
  ELSE IF IsSpectral(a) THEN FullX(DirectAxis(a, o.real)) ELSE SpectralAxis(a, o.real).x
RECURSIVE HarmArr(_, _, _, _)
HarmArr(A, o, reqs, d) ==
  IF d > Len(o.axes) THEN A
  ELSE LET r == Asking(o, d, reqs) a == o.axes[d] IN
       HarmArr(IF r.ax = a.name THEN A
               ELSE TLCEval(LineMap(A, d, LAMBDA l : IF IsSpectral(a) THEN Inverse(a, l, AskedX(o, d, r)) ELSE Forward(a, l, AskedX(o, d, r), o.real))), o, reqs, d + 1)
RealPart(x) == IF IsRat(x) THEN x ELSE Simp(Mul(<<1, 2>>, CAdd(x, CConj(x))))
HarmAnswer(o, reqs, sq) ==
  LET back == \E d \in 1..Len(o.axes) : IsSpectral(o.axes[d]) /\ Asking(o, d, reqs).ax # o.axes[d].name
      A0 == TLCEval(HarmArr(StoredArr(o), o, reqs, 1))
      A == IF back /\ o.real THEN EntryMap(A0, RealPart) ELSE A0
      B == IF sq THEN Squeeze(A) ELSE A
  IN [k |-> "ok",
      axes |-> [d \in 1..Len(o.axes) |-> LET r == Asking(o, d, reqs) IN
                  [n |-> r.ax, t |-> "x", op |-> "", e |-> IF r.ax = "angle" THEN 1 ELSE 0, x |-> AskedX(o, d, r), lab |-> <<>>]],
      sh |-> B.sh, v |-> B.v]
=============================================================================

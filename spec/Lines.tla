------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* Line spectra of real signals as sequences of [f, a]: frequency and      *)
(* complex amplitude.  The signal is the sum of Re(a exp(2 i pi f t)).     *)
(***************************************************************************)
EXTENDS Num

Ln(f, a) == [f |-> f, a |-> a]
LinesOf(x, v) == [j \in 1..Len(x) |-> Ln(x[j], v[j])]
Near(p, q, t) == RLe(RAbs(RSub(p, q)), RMul(<<1, 2>>, t))
\* lines that coincide within the tolerance are added; sorted by frequency
RECURSIVE AddUp(_, _, _, _)
AddUp(s, x, t, j) == IF j > Len(s) THEN Zero ELSE Add(IF Near(s[j].f, x, t) THEN s[j].a ELSE Zero, AddUp(s, x, t, j + 1))
FirstLines(s, t) == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : \A k \in 1..(j - 1) : ~Near(s[k].f, s[j].f, t))
Merge(s, t) ==
  LET F == TLCEval(FirstLines(s, t))
      rank(j) == Cardinality({k \in 1..Len(F) : RLt(s[F[k]].f, s[j].f)}) + 1
      H == [k \in 1..Len(F) |-> CHOOSE j \in {F[m] : m \in 1..Len(F)} : rank(j) = k]
  IN TLCEval([k \in 1..Len(H) |-> Ln(s[H[k]].f, AddUp(s, s[H[k]].f, t, 1))])
\* product of the two signals: sums and differences of the lines
IsDC(x, t) == Near(x, Zero, t)
ReOf(z) == IF IsRat(z) THEN z ELSE RMul(<<1, 2>>, Simp(CAdd(z, CConj(z))))
PairLines(p, q, t) ==
  LET s == RAdd(p.f, q.f) d == RSub(p.f, q.f) IN
  IF IsDC(p.f, t) THEN <<Ln(q.f, Mul(p.a, q.a))>>
  ELSE IF IsDC(q.f, t) THEN <<Ln(p.f, Mul(q.a, p.a))>>
  ELSE <<Ln(s, Mul(<<1, 2>>, Mul(p.a, q.a)))>> \o
       (IF IsDC(d, t) THEN <<Ln(Zero, Mul(<<1, 2>>, ReOf(Mul(p.a, CConj(q.a)))))>>
        ELSE IF RLt(Zero, d) THEN <<Ln(d, Mul(<<1, 2>>, Mul(p.a, CConj(q.a))))>>
        ELSE <<Ln(RNeg(d), Mul(<<1, 2>>, Mul(CConj(p.a), q.a)))>>)
RECURSIVE Pairs(_, _, _, _, _)
Pairs(s, u, t, j, k) ==
  IF j > Len(s) THEN <<>> ELSE IF k > Len(u) THEN Pairs(s, u, t, j + 1, 1)
  ELSE PairLines(s[j], u[k], t) \o Pairs(s, u, t, j, k + 1)
Conv(s, u, t, lo, hi) ==
  LET m == Merge(Pairs(s, u, t, 1, 1), t) IN SelectSeq(m, LAMBDA l : RLe(lo, l.f) /\ (hi = Zero \/ RLe(l.f, hi)))
\* value of the signal at the origin of time
RECURSIVE AtZero(_, _)
AtZero(s, j) == IF j > Len(s) THEN Zero ELSE RAdd(ReOf(s[j].a), AtZero(s, j + 1))
=============================================================================

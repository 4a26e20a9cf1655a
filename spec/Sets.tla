-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* Sets up to a tolerance.  An element is <<value, ulps>>: the rational    *)
(* value moved by a number of floating point neighbours.  Two elements are *)
(* the same when their values are closer than half of the tolerance (the   *)
(* scenarios keep different ones further apart than the tolerance).        *)
(***************************************************************************)
EXTENDS Num

MaxAbs(a) == BestFrom([j \in 1..Len(a) |-> RAbs(a[j][1])], 2, RAbs(a[1][1]), TRUE)
Close(x, y, t) == RLe(RAbs(RSub(x, y)), RMul(<<1, 2>>, t))
SameEl(a, b, t) == Close(a[1], b[1], t)
\* positions of the elements of a that are the same as x
Where(a, x, t) == SelectSeq([j \in 1..Len(a) |-> j], LAMBDA j : SameEl(a[j], x, t))
\* positions where an element appears first
Firsts(a, t) == SelectSeq([j \in 1..Len(a) |-> j], LAMBDA j : \A k \in 1..(j - 1) : ~SameEl(a[k], a[j], t))
\* the same positions, by increasing value
Rank(a, F, j) == Cardinality({k \in 1..Len(F) : RLt(a[F[k]][1], a[j][1])}) + 1
SortedFirsts(a, t) == LET F == Firsts(a, t) IN [k \in 1..Len(F) |-> CHOOSE j \in {F[m] : m \in 1..Len(F)} : Rank(a, F, j) = k]
Heads(a, t, stable) == TLCEval(IF stable THEN Firsts(a, t) ELSE SortedFirsts(a, t))
PosIn(H, a, x, t) == CHOOSE k \in 1..Len(H) : SameEl(a[H[k]], x, t)

Unique(a, t, stable) ==
  LET H == Heads(a, t, stable) IN
  [groups |-> [k \in 1..Len(H) |-> Where(a, a[H[k]], t)],
   inv |-> [j \in 1..Len(a) |-> PosIn(H, a, a[j], t)]]
Union(a, b, t) ==
  LET c == a \o b H == Heads(c, t, FALSE) IN
  [groups |-> [k \in 1..Len(H) |-> Where(c, c[H[k]], t)],
   ia |-> [j \in 1..Len(a) |-> PosIn(H, c, a[j], t)],
   ib |-> [j \in 1..Len(b) |-> PosIn(H, c, b[j], t)]]
Inter(a, b, t) ==
  LET H == SelectSeq(Heads(a, t, FALSE), LAMBDA j : Where(b, a[j], t) # <<>>) IN
  [groups |-> [k \in 1..Len(H) |-> Where(a, a[H[k]], t)],
   other |-> [k \in 1..Len(H) |-> Where(b, a[H[k]], t)]]
=============================================================================

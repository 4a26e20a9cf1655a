------------------------------- MODULE NDArr -------------------------------
(* Arrays of numbers: [sh |-> shape, v |-> entries in row-major order].     *)
(* Every treatment of one axis is a map of lines (LineMap).                 *)
EXTENDS Num

RECURSIVE ProdR(_, _, _)
ProdR(s, i, j) == IF i > j THEN 1 ELSE s[i] * ProdR(s, i + 1, j)
Prod(s) == ProdR(s, 1, Len(s))

LineMap(A, ax, F(_)) ==
  LET n == A.sh[ax]
      inner == ProdR(A.sh, ax + 1, Len(A.sh))
      outer == ProdR(A.sh, 1, ax - 1)
      lines == TLCEval([o \in 0..(outer - 1) |-> TLCEval([i \in 1..inner |->
                 TLCEval(F(TLCEval([k \in 1..n |-> A.v[(o * n + k - 1) * inner + i]])))])])
      m == Len(lines[0][1])
  IN [sh |-> [A.sh EXCEPT ![ax] = m],
      v |-> TLCEval([j \in 1..(outer * m * inner) |->
              lines[(j - 1) \div (m * inner)][((j - 1) % inner) + 1][(((j - 1) \div inner) % m) + 1]])]

EntryMap(A, F(_)) == [sh |-> A.sh, v |-> TLCEval([j \in 1..Len(A.v) |-> F(A.v[j])])]

\* entry at a 1-based index tuple
RECURSIVE Offset(_, _, _, _)
Offset(sh, ix, d, acc) == IF d > Len(sh) THEN acc ELSE Offset(sh, ix, d + 1, acc * sh[d] + ix[d] - 1)
At(A, ix) == A.v[Offset(A.sh, ix, 1, 0) + 1]
\* index tuple of the j-th entry
FlatOf(sh, p) == LET RECURSIVE F(_) F(d) == IF d > Len(sh) THEN 1 ELSE (p[d] - 1) * ProdR(sh, d + 1, Len(sh)) + F(d + 1) IN F(1)
Unflat(sh, j) == [d \in 1..Len(sh) |-> (((j - 1) \div ProdR(sh, d + 1, Len(sh))) % sh[d]) + 1]

\* drop axes of length one
Squeeze(A) == [sh |-> SelectSeq(A.sh, LAMBDA n : n # 1), v |-> A.v]
=============================================================================

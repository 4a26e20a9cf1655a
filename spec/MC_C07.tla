------------------------------- MODULE MC_C07 -------------------------------
(* Chains of transforms: field -> spectrum -> field -> spectrum.            *)
EXTENDS ScenF

\* requests of every axis of a field
RECURSIVE Pairs(_, _, _, _)
Other(a) == IF IsSpectral(a) THEN DirectOf(a.name) ELSE IF SpectralOf(a.name) # "" THEN SpectralOf(a.name) ELSE a.name
Pairs(i, o, d, acc) ==
  IF d > Len(o.axes) THEN acc
  ELSE Pairs(i, o, d + 1, Append(acc,
         IF o.axes[d].comp THEN Whole(o.axes[d].name)
         ELSE IF D(i, 50 + d, 3) = 0 THEN Whole(o.axes[d].name) ELSE Whole(Other(o.axes[d]))))
All(o) == [d \in 1..Len(o.axes) |-> Whole(o.axes[d].name)]
Flip(o) == [d \in 1..Len(o.axes) |-> Whole(Other(o.axes[d]))]
G(k, rs) == [Get(k, rs) EXCEPT !.sq = FALSE]
\* 1: field, 2: spectrum, 3: field again, 4: spectrum again
Calls(i, o) ==
  IF o.cls = "DataFreq"
  THEN << On("freq_to_time", 1), G(2, Flip(o)), On("time_to_freq", 2), G(3, All(o)), G(1, Flip(o)) >>
  ELSE << On("time_to_freq", 1), G(2, Flip(FreqField(o))), G(2, Perm(i, 60, Pairs(i, FreqField(o), 1, <<>>))),
          On("freq_to_time", 2), G(3, All(o)), On("time_to_freq", 3), G(1, Perm(i, 60, Pairs(i, o, 1, <<>>))),
          Get(4, Flip(FreqField(o))) >>
\* a third of the other axes stored as patterns
PatF(i, b, a) ==
  LET n == Len(a.x)
      idx == [j \in 1..n |-> j] \o [j \in 1..(1 + D(i, b, 3)) |-> 1 + D(i, b + j, n)]
  IN IF n = 0 \/ a.comp \/ a.name \in {"time", "angle"} \/ a.sym.n > 1 \/ D(i, b + 5, 2) # 0 THEN a
     ELSE [MkAxis(a.name, a.unit, a.e, a.x, NoSym) EXCEPT !.pat =
             [on |-> TRUE, idx |-> idx, whole |-> [j \in 1..Len(idx) |-> IF j <= n THEN a.x[j] ELSE RAdd(a.x[n], I(j - n))], step |-> FALSE]]
Patterned(i, o) == [o EXCEPT !.axes = TLCEval([d \in 1..Len(o.axes) |-> PatF(i, 70 + 10 * d, o.axes[d])])]
K == Budget(600, 5000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET o == TLCEval(IF D(i, 2, 4) = 0 THEN SpecF(i) ELSE Patterned(i, FieldF(i))) IN CallN(i, <<o>>, Calls(i, o))
Spec == Init /\ [][Next]_vars

EqArr(A, B) == A.sh = B.sh /\ \A j \in 1..Len(A.v) : CEq(A.v[j], B.v[j])
InTable(A) == \A j \in 1..Len(A.v) : IsRat(A.v[j]) \/ A.v[j][2] <= Len(Phi)
\* transforming there and back is the identity on the whole field and its coordinates
RoundTrip ==
  (log # <<>> /\ Len(heap) >= 3 /\ heap[1].cls = "DataTime" /\ InTable(FullArr(heap[3]))) =>
    /\ EqArr(FullArr(heap[3]), FullArr(heap[1]))
    /\ \A d \in 1..Len(heap[1].axes) : FullX(heap[3].axes[d]) = FullX(heap[1].axes[d])
SpectrumTrip ==
  (log # <<>> /\ heap[1].cls = "DataFreq" /\ InTable(StoredArr(heap[3]))) =>
    /\ EqArr(StoredArr(heap[3]), StoredArr(heap[1]))
    /\ \A d \in 1..Len(heap[1].axes) : heap[3].axes[d].x = heap[1].axes[d].x
=============================================================================

------------------------------- MODULE MC_C13B ------------------------------
(* Axes of fields: asked by name in any order, and their periods.            *)
EXTENDS ScenV

ObjB(i) == CASE D(i, 50, 5) = 0 -> VecV(i)
             [] D(i, 50, 5) = 1 -> DualOf(FieldF(i))
             [] D(i, 50, 5) = 2 -> SpecF(i)
             [] OTHER -> FieldF(i)
AxesOf(o) == IF IsDual(o) THEN o.t.axes \o o.f.axes ELSE IF IsVec(o) THEN o.comps[1].f.axes ELSE o.axes
\* the two sides of a dual field share the axes without a transform: these are not asked there
NamesOf(o) == LET A == TLCEval(AxesOf(o)) N == [d \in 1..Len(A) |-> A[d].name]
              IN SelectSeq(N, LAMBDA n : ~IsDual(o) \/ n \in {"time", "angle", "freqs", "wavenumber"})
NamedI(i, b, o) ==
  LET N == Perm(i, b, NamesOf(o)) M == SubSeq(N, 1, 1 + D(i, b + 20, Len(N)))
  IN [m |-> "named_axes", o |-> 1, names |-> IF D(i, b + 21, 4) = 0 THEN M \o <<"absent">> ELSE IF D(i, b + 21, 4) = 1 THEN <<"absent">> \o M ELSE M]
CallsB(i, o) ==
  [k \in 1..3 |-> NamedI(i, 1000 * k, o)]
  \o (IF IsDual(o) THEN <<>> ELSE <<[m |-> "named_axes", o |-> 1, names |-> <<>>]>>)
  \o (IF IsDual(o) \/ IsVec(o) \/ o.cls = "DataFreq" THEN <<>> ELSE <<On("field_period", 1)>>)
K == Budget(500, 5000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} : LET o == TLCEval(ObjB(i)) IN CallN(i, <<o>>, TLCEval(CallsB(i, o)))
Spec == Init /\ [][Next]_vars

\* no axis twice, and every name that is an axis is answered
Once == \A k \in 1..Len(log) : log[k].call.m = "named_axes" =>
  LET A == log[k].ans.axes N == log[k].call.names IN
  /\ \A p, q \in 1..Len(A) : p # q => A[p].a.name # A[q].a.name
  /\ N # <<>> => Len(A) = Len(SelectSeq(N, LAMBDA n : n # "absent"))
=============================================================================

------------------------------- MODULE MC_C04 -------------------------------
(* Reductions along any set of axes, with selections on the others.         *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"z">>, <<"x">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "phase">>, <<"z", "angle">>, <<"time", "angle", "z">>, <<"x", "time", "phase">>,
              <<"angle", "x", "time">>, <<"phase", "z">>, <<"x", "y">> >>
Ops == << "sum", "mean", "rms", "rss", "max", "min" >>
Light == << NoSym, NoSym, Per(2), APer(2), Per(3), APer(4) >>
AxesI(i) ==
  LET L == P(i, 1, Layouts) IN
  [d \in 1..Len(L) |->
     IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 3)
     ELSE IF L[d] \in {"x", "y"} /\ D(i, 100 * d + 9, 3) = 0 THEN UnevenD(i, 100 * d, L[d], 1, 4)
     ELSE AxisD(i, 100 * d, L[d], 1, IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 8,
                IF Len(L) = 1 THEN Syms ELSE Light)]
\* a field whose values may be complex
FieldI(i) ==
  LET axes == AxesI(i) f == FieldOf(i, axes) IN
  IF D(i, 3, 5) = 0
  THEN [f EXCEPT !.real = FALSE, !.val = [j \in 1..Len(f.val) |-> Complex(f.val[j], ValOf(i + 1, j))]]
  ELSE f
\* reduction (most axes), selection or spectrum on axis d
ReqI(i, a, b) ==
  LET k == D(i, b + 20, 8) IN
  CASE k \in {0, 1, 2, 3, 4} -> Op(a.name, P(i, b + 21, Ops))
    [] k = 5 /\ SpectralOf(a.name) # "" -> Op(SpectralOf(a.name), P(i, b + 21, <<"sum", "mean">>))
    [] k = 6 /\ SpectralOf(a.name) # "" -> Whole(SpectralOf(a.name))
    [] OTHER -> IF a.comp THEN CompSelD(i, b + 30, a) ELSE SelD(i, b + 30, a, "")
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 8) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, o.axes[S[j]], 100 * S[j])])
K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET o == TLCEval(FieldI(i)) IN Call1(i, o, [Get(1, ReqsI(i, o)) EXCEPT !.sq = D(i, 5, 4) # 0])
Spec == Init /\ [][Next]_vars

\* one-axis laws of the specified reductions
Line(o) == FullArr(o).v
One1(op) ==
  LET o == heap[1] IN Answer(o, <<Op(o.axes[1].name, op)>>, "", TRUE).v[1]
Laws ==
  (log # <<>> /\ Len(heap[1].axes) = 1 /\ heap[1].real /\ ~heap[1].axes[1].comp
     /\ (IsPhys(heap[1].axes[1]) => NStored(heap[1].axes[1]) > 1)) =>
    LET a == heap[1].axes[1] l == Line(heap[1]) IN
    /\ \A j \in 1..Len(l) : RLe(One1("min"), l[j]) /\ RLe(l[j], One1("max"))
    /\ One1("sum") = SumSeq(l)
    /\ (a.sym.t = "aper") => (One1("sum") = Zero /\ One1("mean") = Zero)
    \* uniform periodic signals: mean value of the samples
    /\ UniformX(FullX(a)) => One1("mean") = Mul(<<1, Len(l)>>, SumSeq(l))
=============================================================================

------------------------------- MODULE MC_C05 -------------------------------
(* Integrals, derivatives, primitives and local integrals.                  *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"z">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "phase">>, <<"z", "angle">>, <<"z", "time">>, <<"time", "angle", "z">>, <<"x", "z", "time">>,
              <<"phase", "z">>, <<"time", "x">> >>
Ops == << "integrate", "derivate", "antiderivate", "integrate_local", "derivate", "antiderivate" >>
Light == << NoSym, NoSym, Per(2), APer(2), Per(3), APer(4) >>
AxesI(i) ==
  LET L == P(i, 1, Layouts) IN
  [d \in 1..Len(L) |->
     IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 3)
     ELSE AxisD(i, 100 * d, L[d], IF D(i, 100 * d + 9, 12) = 0 THEN 1 ELSE 2,
                IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 8,
                IF Len(L) = 1 THEN Syms ELSE Light)]
FieldI(i) ==
  LET axes == AxesI(i) f == FieldOf(i, axes) IN
  IF D(i, 3, 6) = 0
  THEN [f EXCEPT !.real = FALSE, !.val = [j \in 1..Len(f.val) |-> Complex(f.val[j], ValOf(i + 1, j))]]
  ELSE f
ReqI(i, a, b) ==
  LET k == D(i, b + 20, 9) IN
  CASE k \in {0, 1, 2, 3, 4} -> Op(a.name, P(i, b + 21, Ops))
    [] k = 5 -> Op(a.name, P(i, b + 21, <<"sum", "mean", "max", "min", "rms">>))
    [] k = 6 /\ SpectralOf(a.name) # "" ->
         Op(SpectralOf(a.name), P(i, b + 21, <<"derivate", "antiderivate", "integrate", "integrate_local">>))
    [] OTHER -> IF a.comp THEN CompSelD(i, b + 30, a) ELSE SelD(i, b + 30, a, "")
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 8) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, o.axes[S[j]], 100 * S[j])])
K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET o == TLCEval(FieldI(i)) IN Call1(i, o, [Get(1, ReqsI(i, o)) EXCEPT !.sq = D(i, 5, 4) # 0])
Spec == Init /\ [][Next]_vars

\* laws of the specified operations on one axis
On1(op) == LET o == heap[1] IN Answer(o, <<Op(o.axes[1].name, op)>>, "", FALSE)
Eq(a, b) == SameNum(a, b)
Laws ==
  (log # <<>> /\ Len(heap[1].axes) = 1 /\ heap[1].real /\ IsPhys(heap[1].axes[1]) /\ heap[1].axes[1].e = 0
     /\ NStored(heap[1].axes[1]) > 1) =>
    LET a == heap[1].axes[1] x == FullX(a) l == FullArr(heap[1]).v n == NStored(a)
        pr == On1("antiderivate").v  dv == On1("derivate").v  it == On1("integrate").v[1]
        lo == On1("integrate_local").v
    IN \* increments of the primitive are the trapezoids
       /\ \A i \in 1..(n - 1) : Sub(pr[i + 1], pr[i]) = Seg(x, l, i)
       \* the derivative has no mean over a full period
       /\ a.sym.t # "aper" => SumSeq(dv) = Zero
       \* local integrals and the closing segment add up to the integral
       /\ a.sym.t = "none" =>
            Add(SumSeq(lo), Mul(RMul(<<1, 2>>, StepOf(a)), Add(l[1], l[n]))) = it
       /\ a.sym.t = "aper" => it = Zero
=============================================================================

------------------------------- MODULE MC_C12 -------------------------------
(* Fields asked at given coordinates: one or several interpolated axes in   *)
(* any position, on and between samples, in and out of order, over several  *)
(* periods, in units and normalizations.                                    *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"x">>, <<"time", "angle">>, <<"x", "time">>, <<"z", "x">>, <<"speed", "time">>,
              <<"time", "phase">>, <<"time", "angle", "z">>, <<"x", "phase", "angle">>, <<"z", "x", "time">> >>
N0(k, v) == [name |-> k, k |-> k, u |-> "SI", p |-> I(4), q |-> I(1), e |-> 0, vec |-> v]
AxisI(i, b, name, big) ==
  IF name = "phase" THEN CompD(i, b, name, 3)
  ELSE IF name \in {"x", "speed"} /\ D(i, b + 9, 2) = 0 THEN UnevenD(i, b, name, 1, big)
  ELSE LET a == AxisD(i, b, name, 1, big, << NoSym, NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>)
       IN IF D(i, b + 8, 3) = 0 THEN [a EXCEPT !.norms = <<N0("ref", <<>>), N0("affine", <<>>)>>] ELSE a
FieldI(i) ==
  LET L == P(i, 1, Layouts)
      axes == [d \in 1..Len(L) |-> AxisI(i, 100 * d, L[d], IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 8)]
      n == NVals(axes) cplx == D(i, 3, 5) = 0
      f == FieldOf(i, axes)
  IN IF cplx THEN [f EXCEPT !.real = FALSE, !.val = [j \in 1..n |-> Complex(ValOf(i, j), ValOf(i + 1, j))]]
     ELSE IF D(i, 4, 3) = 0 THEN [f EXCEPT !.ints = TRUE] ELSE f
UnitI(i, b, a) ==
  CASE a.norms # <<>> /\ D(i, b, 2) = 0 -> P(i, b + 1, << "ref", "affine" >>)
    [] a.name = "time" /\ D(i, b, 5) = 1 -> "ms"
    [] a.name = "angle" /\ D(i, b, 5) = 1 -> "°"
    [] OTHER -> ""
\* coordinates asked: slots b .. b+20
PtsI(i, b, x) ==
  LET n == Len(x) m == 2 + D(i, b + 1, 4)
      j(k) == 1 + D(i, b + 2 + 2 * k, n - 1)
      q(k) == P(i, b + 3 + 2 * k, << Zero, Zero, <<1, 4>>, <<1, 2>>, <<3, 4>>, One, <<1, 128>> >>)
      at(k, t) == RAdd(x[k], RMul(t, RSub(x[k + 1], x[k])))
  IN CASE D(i, b, 8) = 0 -> x
       [] D(i, b, 8) = 1 -> [k \in 1..n |-> IF k < n THEN at(k, <<1, 256>>) ELSE x[k]]
       [] D(i, b, 8) = 2 -> [k \in 1..n |-> x[n + 1 - k]]
       [] D(i, b, 8) = 3 -> [k \in 1..m |-> x[1 + D(i, b + 2 + k, n)]]
       [] D(i, b, 8) = 4 -> [k \in 1..(n - 1) |-> at(k, <<1, 2>>)]
       [] OTHER -> [k \in 1..m |-> at(j(k), q(k))]
ReqI(i, b, a) ==
  IF a.comp THEN CompSelD(i, b, a)
  ELSE LET u == UnitI(i, b, a) c == CoordsIn(a, u) n == Len(c.x)
           pts == TLCEval(PtsI(i, b + 4, c.x))
           k == D(i, b + 3, 8)
       IN IF n = 1 THEN Whole(a.name)
          ELSE IF k = 0 THEN SelD(i, b + 30, a, u)
          ELSE IF k = 1 THEN Op(a.name, P(i, b + 31, << "sum", "mean", "max" >>))
          ELSE IF k = 2 /\ Exactly(a, u) THEN InUnit(WithE(Val(a.name, RAdd(c.x[n], One)), c.e), u)
          ELSE InUnit(WithE(IF Len(pts) > 2 /\ D(i, b + 32, 2) = 0 THEN ValList(a.name, pts) ELSE Data(a.name, pts), c.e), u)
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 8) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, 100 * S[j] + 20, o.axes[S[j]])])
K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET o == TLCEval(FieldI(i)) IN Call1(i, o, TLCEval([Get(1, ReqsI(i, o)) EXCEPT !.sq = D(i, 5, 2) = 0]))
Spec == Init /\ [][Next]_vars

\* on the axis' own coordinates nothing changes; between two samples the value is between the samples
OwnCoords ==
  log # <<>> => LET c == log[1].call r == log[1].ans IN
    (r.k = "ok" /\ \A j \in 1..Len(c.reqs) : c.reqs[j].f \in {"list", "data"} =>
         \A d \in 1..Len(heap[1].axes) : heap[1].axes[d].name = c.reqs[j].ax => c.reqs[j].vs = CoordsIn(heap[1].axes[d], c.reqs[j].u).x)
    => r.v = Answer(heap[1], [j \in 1..Len(c.reqs) |-> IF c.reqs[j].f \in {"list", "data"} THEN InUnit(Whole(c.reqs[j].ax), c.reqs[j].u) ELSE c.reqs[j]], c.u, c.sq).v
Bounded ==
  log # <<>> => LET c == log[1].call r == log[1].ans IN
    (r.k = "ok" /\ heap[1].real /\ \A j \in 1..Len(c.reqs) : c.reqs[j].f \in {"list", "data", "whole", "idx"}) =>
       \A j \in 1..Len(r.v) : /\ RLe(r.v[j], MaxOf(FullArr(heap[1]).v))
                              /\ RLe(MinOf(FullArr(heap[1]).v), r.v[j])
=============================================================================

------------------------------- MODULE MC_C10 -------------------------------
(* Units of derived fields: fields of drawn units are derived and           *)
(* integrated once or twice along axes of drawn units; the declared unit of *)
(* each result is compared by meaning, and the result is asked in another   *)
(* unit.  Invariant Before: converting before or after deriving is the same.*)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"z">>, <<"time", "angle">>, <<"time", "z">>, <<"z", "time">>, <<"angle", "time">>, <<"time", "x">> >>
\* unit (numerator, denominator), the same quantity in another unit
FieldUnits == << << "T", "", "mT" >>, << "T", "", "G" >>, << "N", "m2", "" >>, << "m", "", "mm" >>, << "m", "s", "" >>, << "A", "", "mA" >>,
                 << "V", "m", "" >>, << "W", "", "kW" >>, << "m", "s2", "" >>, << "mT", "", "T" >>, << "dimless", "", "" >>, << "Wb", "", "" >>,
                 << "rad", "s", "" >>, << "s", "", "min" >>, << "Pa", "", "" >>, << "N*m", "", "" >>, << "kN", "", "N" >>, << "A", "m", "" >>,
                 << "H", "m", "" >>, << "mm", "", "m" >>, << "degC", "", "" >>, << "Hz", "", "kHz" >>, << "m3", "s", "" >>, << "J", "m3", "" >>, << "min", "", "s" >> >>
FU(i) == P(i, 1, FieldUnits)
AxisI(i, d, name) ==
  LET a == AxisD(i, 100 * d, name, 2, 4, << NoSym, NoSym, NoSym, Per(2), APer(2) >>) IN
  IF name = "time" /\ D(i, 100 * d + 10, 4) = 0 THEN [a EXCEPT !.unit = "ms"]
  ELSE IF name = "z" /\ D(i, 100 * d + 10, 3) = 0 THEN [a EXCEPT !.unit = "mm"]
  ELSE IF name = "angle" /\ D(i, 100 * d + 10, 5) = 0
       THEN [a EXCEPT !.unit = "°", !.e = 0, !.lin = NoLin, !.x = [j \in 1..Len(a.x) |-> RMul(I(180), a.x[j])]]
  ELSE a
ObjI(i) ==
  LET L == P(i, 2, Layouts) o == FieldOf(i, TLCEval([d \in 1..Len(L) |-> AxisI(i, d, L[d])])) u == FU(i)
  IN [o EXCEPT !.unit = u[1] \o (IF u[2] = "" THEN "" ELSE "/" \o u[2]), !.unum = u[1], !.uden = u[2]]
Ops == << "integrate", "derivate", "antiderivate", "integrate_local" >>
\* an operation on one or two axes, samples on the others
ReqsI(i, o, b) ==
  LET n == Len(o.axes) k == IF n = 0 THEN 0 ELSE 1 + D(i, b, n) both == D(i, b + 1, 4) = 0 IN
  Perm(i, b + 5, [d \in 1..n |->
     IF (d = k \/ both) /\ IsPhys(o.axes[d])
     THEN IF d = k /\ o.axes[d].name = "time" /\ o.axes[d].unit = "s" /\ D(i, b + 2, 5) = 0 THEN Op("freqs", P(i, b + 10 + d, << "derivate", "antiderivate" >>))
          ELSE Op(o.axes[d].name, P(i, b + 10 + d, Ops))
     ELSE IF D(i, b + 20 + d, 4) = 0 THEN Idx(o.axes[d].name, <<0, 1>>) ELSE Small(o.axes[d].name)])
Plain(o) == \A j \in 1..Len(o.val) : IsNum(o.val[j])
\* axes that can be derived again
Again(o) == Plain(o) /\ \A d \in 1..Len(o.axes) : Len(o.axes[d].x) > 1 /\ Increasing(o.axes[d].x) /\ UniformX(o.axes[d].x)
AllOf(o) == [d \in 1..Len(o.axes) |-> Small(o.axes[d].name)]
\* the derived field h asked in the unit where its first factor is w
AskIn(j, f, w) ==
  [call |-> [Get(j, AllOf(f)) EXCEPT !.u = Spell(w, f.uden, f.ud)],
   ans |-> Answer([f EXCEPT !.unit = f.unum, !.ud = <<>>], AllOf(f), w, TRUE)]
K == Budget(3000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(ObjI(i)) w == FU(i)[3]
           u == IF w # "" /\ D(i, 3, 3) = 0 THEN w ELSE ""
           c1 == Take(1, TLCEval(ReqsI(i, o, 1000)), u)
           s1 == TLCEval(Run(<<o>>, <<c1>>))
           two == s1.log[1].ans.k = "obj" /\ D(i, 4, 2) = 0 /\ Again(s1.heap[2])
           s2 == TLCEval(IF two THEN Run(<<o>>, <<c1, Take(2, TLCEval(ReqsI(i, s1.heap[2], 2000)), "")>>) ELSE s1)
           n == Len(s2.heap) f == s2.heap[n]
           ask == n > 1 /\ w # "" /\ u = "" /\ f.uden = "" /\ f.ud # <<>>
           lg == s2.log \o (IF ask THEN <<TLCEval(AskIn(n, f, w))>> ELSE <<>>)
       IN heap' = s2.heap /\ log' = lg /\ cid' = i
          /\ Write([id |-> i, objs |-> <<o>>, steps |-> lg, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

\* extracting in another unit is extracting, then converting
Before ==
  log # <<>> /\ log[1].ans.k = "obj" /\ log[1].call.u # "" =>
    LET f == Extracted(heap[1], log[1].call.reqs, "").f
        v == FieldIn([f EXCEPT !.unit = f.unum], [sh |-> <<>>, v |-> f.val], log[1].call.u).v
    IN \A j \in 1..Len(v) : SameNum(v[j], heap[2].val[j])
=============================================================================

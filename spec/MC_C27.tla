------------------------------- MODULE MC_C27 -------------------------------
(* Two or three fields with equal, nested, shifted or unrelated axes,        *)
(* compared along any request; plain, magnitude and phase.                   *)
EXTENDS ScenF

Layouts == << <<"time">>, <<"x">>, <<"angle">>, <<"time", "x">>, <<"x", "time">>, <<"angle", "time">>, <<"x", "phase">>, <<"time", "phase">>, <<"freqs">>,
              <<"x", "freqs">>, <<"angle", "z", "x">> >>
\* axis v (variant) of the same quantity
AxisV(i, b, name, v, big) ==
  LET n == (IF big THEN 2 ELSE 3) + D(i, b, IF big THEN 2 ELSE 4)
      h == P(i, b + 1, << One, <<1, 2>>, <<1, 4>> >>)
      x0 == P(i, b + 2, << Zero, One, <<-3, 2>> >>)
      sym == P(i, b + 3, << NoSym, NoSym, Per(2), APer(2) >>)
      unit == IF name = "time" THEN "s" ELSE IF name = "freqs" THEN "Hz" ELSE "m"
      base == IF name = "angle" THEN MkAxis(name, "rad", 1, GridX(Zero, Q(2, n * sym.n), n), sym)
              ELSE IF D(i, b + 4, 4) = 0 /\ name \notin {"time"} THEN [UnevenD(i, b, name, n, n) EXCEPT !.unit = unit]
              ELSE MkAxis(name, unit, 0, GridX(IF name = "freqs" THEN Zero ELSE x0, h, n), IF name = "freqs" THEN NoSym ELSE sym)
  IN CASE v = 0 -> base
       \* finer
       [] v = 1 /\ name = "angle" -> MkAxis(name, "rad", 1, GridX(Zero, Q(1, n * sym.n), 2 * n), sym)
       [] v = 1 -> MkAxis(name, unit, 0, GridX(base.x[1], RMul(<<1, 2>>, h), 2 * n - 1), NoSym)
       \* another range
       [] v = 2 /\ name = "angle" -> MkAxis(name, "rad", 1, GridX(Zero, Q(2, n), n), NoSym)
       [] v = 2 -> MkAxis(name, unit, 0, GridX(RAdd(base.x[1], RMul(<<3, 4>>, h)), h, n), NoSym)
       \* another sampling
       [] v = 3 /\ name = "angle" -> MkAxis(name, "rad", 1, GridX(Zero, Q(2, n + 1), n + 1), NoSym)
       [] OTHER -> MkAxis(name, unit, 0, GridX(RSub(base.x[1], RMul(<<1, 3>>, h)), RMul(<<2, 3>>, h), n + 2), NoSym)
FieldV(i, k) ==
  LET L == P(i, 1, Layouts)
      axes0 == TLCEval([d \in 1..Len(L) |-> IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 2)
                  ELSE AxisV(i, 100 * d, L[d], IF k = 1 \/ D(i, 5, 4) = 0 THEN 0 ELSE D(i, 40 + 10 * k + d, 5) % 4, Len(L) > 2)])
      ord == IF k > 1 /\ D(i, 20 + k, 4) = 0 THEN Perm(i, 25 + k, SeqOf(Len(L))) ELSE SeqOf(Len(L))
      axes == TLCEval([d \in 1..Len(L) |-> axes0[ord[d]]])
      n == NVals(axes) cx == D(i, 3, 4) = 0
  IN [MkField(IF "freqs" \in {L[d] : d \in 1..Len(L)} THEN "DataFreq" ELSE "DataTime", axes,
              TLCEval([j \in 1..n |-> IF cx THEN Complex(ValOf(i + 7 * k, j), ValOf(i + 7 * k + 1, j)) ELSE ValOf(i + 7 * k, j)]))
        EXCEPT !.real = ~cx, !.sym = <<"X", "Y", "X">>[k], !.unit = IF k = 2 /\ D(i, 6, 3) = 0 THEN "mT" ELSE "T"]
ReqOnD(i, b, a) ==
  IF a.comp THEN CompSelD(i, b, a)
  ELSE CASE D(i, b, 8) \in {0, 1, 2} -> Whole(a.name)
         [] D(i, b, 8) = 3 -> Op(a.name, P(i, b + 1, <<"sum", "mean", "max">>))
         [] D(i, b, 8) = 4 /\ SpectralOf(a.name) # "" -> Whole(SpectralOf(a.name))
         [] D(i, b, 8) = 5 -> Idx(a.name, <<0>>)
         [] D(i, b, 8) = 6 -> IF a.e = 0 THEN Gt(a.name, RAdd(a.x[1], <<1, 8>>)) ELSE Whole(a.name)
         [] OTHER -> IF a.e = 0 /\ a.name # "freqs" THEN Data(a.name, << RAdd(a.x[1], RMul(<<3, 4>>, RSub(a.x[2], a.x[1]))), RAdd(a.x[1], RMul(<<7, 8>>, RSub(a.x[2], a.x[1])) ), a.x[2] >>) ELSE Small(a.name)
ReqV(i, b, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, b + 90 + d, 10) # 0)
  IN Perm(i, b + 95, [j \in 1..Len(S) |-> LET r == ReqOnD(i, b + 20 * S[j], o.axes[S[j]]) IN IF r.f \in {"data"} THEN Whole(r.ax) ELSE r])
CallV(i, k, objs) ==
  LET b == 2000 + 200 * k kind == P(i, b, <<"plain", "plain", "mag", "phase">>) IN
  [m |-> "compare", o |-> 1, others |-> IF Len(objs) = 2 THEN <<2>> ELSE IF D(i, b + 1, 3) = 0 THEN <<3>> ELSE <<2, 3>>, kind |-> kind,
   reqs |-> ReqV(i, b + 2, objs[1]), u |-> IF kind # "phase" /\ D(i, b + 3, 4) = 0 THEN "mT" ELSE ""]
K == Budget(900, 9000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET objs == TLCEval([k \in 1..(2 + D(i, 2, 2)) |-> FieldV(i, k)]) IN CallN(i, objs, TLCEval([k \in 1..4 |-> CallV(i, k, objs)]))
Spec == Init /\ [][Next]_vars
\* the common range lies in the range of every field; identical axes are left as they are
CommonRange ==
  \A k \in 1..Len(log) : log[k].ans.k = "ok" => \A j \in 1..Len(log[k].ans.axes) :
    LET a == log[k].ans.axes[j] IN
    IF a.same THEN \A p \in 1..Len(log[k].ans.parts) : log[k].ans.parts[p].own[j].x = a.x
    ELSE RLt(a.over.lo, a.over.hi) /\ \A p \in 1..Len(log[k].ans.parts) :
           LET x == log[k].ans.parts[p].own[j].x IN RLe(x[1], a.over.lo) /\ RLe(a.over.hi, x[Len(x)])
=============================================================================

------------------------------- MODULE MC_C14 -------------------------------
(* Pattern axes: each case makes the same request on a field stored on its  *)
(* slices and on the same field with every slice written out.               *)
EXTENDS Scen

OtherAxes == << <<>>, <<>>, <<"time">>, <<"angle">>, <<"x">>, <<"phase">>, <<"time", "angle">> >>
\* step pattern: slices of drawn widths, each at one or several places
StepI(i, b, name) ==
  LET n == 1 + D(i, b, 4)              \* stored slices
      m == n + D(i, b + 1, 3)          \* places
      place == [k \in 1..m |-> IF k <= n THEN k ELSE 1 + D(i, b + 10 + k, n)]
      pl == IF D(i, b + 2, 3) = 0 THEN Perm(i, b + 20, place) ELSE place
      w(k) == P(i, b + 30 + k, << One, One, <<1, 2>>, I(2) >>)
      x0 == P(i, b + 3, << Zero, <<-5, 1>>, <<3, 2>> >>)
      RECURSIVE edge(_)
      edge(k) == IF k = 1 THEN x0 ELSE RAdd(edge(k - 1), w(k - 1))
      whole == TLCEval([j \in 1..(2 * m) |-> IF j % 2 = 1 THEN edge((j \div 2) + 1) ELSE edge((j \div 2) + 1)])
      idx == [j \in 1..(2 * m) |-> pl[((j - 1) \div 2) + 1]]
      first == [s \in 1..n |-> CHOOSE j \in 1..(2 * m) : idx[j] = s /\ \A q \in 1..(j - 1) : idx[q] # s]
  IN [MkAxis(name, "m", 0, [s \in 1..n |-> whole[first[s]]], NoSym)
        EXCEPT !.pat = [on |-> TRUE, idx |-> idx, whole |-> whole, step |-> TRUE]]
\* piecewise-linear pattern: samples at increasing places
LinearI(i, b, name) ==
  LET n == 1 + D(i, b, 4)
      m == n + D(i, b + 1, 4)
      place == [k \in 1..m |-> IF k <= n THEN k ELSE 1 + D(i, b + 10 + k, n)]
      pl == IF D(i, b + 2, 3) = 0 THEN Perm(i, b + 20, place) ELSE place
      x0 == P(i, b + 3, << Zero, <<-5, 1>>, <<3, 2>> >>)
      \* a place may be doubled when it shows the same sample
      w(k) == IF pl[k] = pl[k + 1] /\ D(i, b + 4, 2) = 0 THEN Zero ELSE P(i, b + 30 + k, << One, One, <<1, 2>>, I(2) >>)
      RECURSIVE at(_)
      at(k) == IF k = 1 THEN x0 ELSE RAdd(at(k - 1), w(k - 1))
      whole == TLCEval([j \in 1..m |-> at(j)])
      first == [s \in 1..n |-> CHOOSE j \in 1..m : pl[j] = s /\ \A q \in 1..(j - 1) : pl[q] # s]
  IN [MkAxis(name, "m", 0, [s \in 1..n |-> whole[first[s]]], NoSym)
        EXCEPT !.pat = [on |-> TRUE, idx |-> pl, whole |-> whole, step |-> FALSE]]
\* the same on held samples, most of them shown at two consecutive places
HeldI(i, b, name) ==
  LET n == 1 + D(i, b, 4)
      rep == TLCEval([k \in 1..n |-> 1 + D(i, b + 10 + k, 2)])
      RECURSIVE upto(_)
      upto(k) == IF k = 0 THEN <<>> ELSE upto(k - 1) \o [j \in 1..rep[k] |-> k]
      pl == TLCEval(upto(n))
      m == Len(pl)
      x0 == P(i, b + 3, << Zero, <<-5, 1>>, <<3, 2>> >>)
      RECURSIVE at(_)
      at(k) == IF k = 1 THEN x0 ELSE RAdd(at(k - 1), P(i, b + 30 + k, << One, One, <<1, 2>>, I(2) >>))
      whole == TLCEval([j \in 1..m |-> at(j)])
      first == [s \in 1..n |-> CHOOSE j \in 1..m : pl[j] = s /\ \A q \in 1..(j - 1) : pl[q] # s]
  IN [MkAxis(name, "m", 0, [s \in 1..n |-> whole[first[s]]], NoSym)
        EXCEPT !.pat = [on |-> TRUE, idx |-> pl, whole |-> whole, step |-> TRUE]]
PatI(i, b) ==
  LET name == P(i, b + 50, << "z", "z", "slice", "x2" >>)
  IN CASE D(i, b + 51, 5) \in {0, 1} -> StepI(i, b, name)
       [] D(i, b + 51, 5) = 2 -> HeldI(i, b, name)
       [] OTHER -> LinearI(i, b, name)
OtherI(i, b, name, big) ==
  IF name = "phase" THEN CompD(i, b, name, 3)
  ELSE AxisD(i, b, name, 1, big, << NoSym, NoSym, Per(2), APer(2), Per(3), APer(4) >>)
AxesI(i) ==
  LET L == P(i, 1, OtherAxes)
      rest == [d \in 1..Len(L) |-> OtherI(i, 100 * d, L[d], IF Len(L) = 2 THEN 2 ELSE 4)]
      k == D(i, 2, Len(L) + 1)
  IN SubSeq(rest, 1, k) \o <<PatI(i, 500)>> \o SubSeq(rest, k + 1, Len(rest))
FieldI(i) == LET f == FieldOf(i, AxesI(i)) IN IF D(i, 3, 3) = 0 THEN [f EXCEPT !.ints = TRUE] ELSE f
Ops == << "sum", "mean", "rms", "rss", "max", "min", "integrate", "integrate", "integrate_local", "antiderivate" >>
\* a coordinate on or between the places
PtD(i, b, a, x) ==
  LET n == Len(x) k == 1 + D(i, b, n - 1)
      \* what a step is worth between two slices is not stated
      t == IF a.pat.step /\ a.pat.idx[k] # a.pat.idx[k + 1] THEN P(i, b + 1, << Zero, One, One >>)
           ELSE P(i, b + 1, << Zero, <<1, 4>>, <<1, 2>>, <<3, 4>>, One, <<1, 1024>>, <<1023, 1024>> >>)
  IN RAdd(x[k], RMul(t, RSub(x[k + 1], x[k])))
PatReqI(i, b, a) ==
  LET x == FullX(a) n == Len(x) p == PtD(i, b + 1, a, x) q == PtD(i, b + 3, a, x)
      lo == IF RLt(p, q) THEN p ELSE q hi == IF RLt(p, q) THEN q ELSE p
      r == CASE D(i, b, 12) = 0 -> Patt(a.name)
             [] D(i, b, 12) = 1 -> Small(a.name)
             [] D(i, b, 12) = 2 -> Idx(a.name, <<D(i, b + 5, 2 * n + 1) - n>>)
             [] D(i, b, 12) = 3 -> Idx(a.name, <<D(i, b + 5, n), D(i, b + 6, n), D(i, b + 7, n)>>)
             [] D(i, b, 12) = 4 -> LET s == D(i, b + 5, n) IN Range(a.name, s, s + 1 + D(i, b + 6, n - s))
             [] D(i, b, 12) = 5 -> Ivl(a.name, lo, hi)
             [] D(i, b, 12) = 6 -> IF D(i, b + 8, 2) = 0 THEN Gt(a.name, p) ELSE Lt(a.name, p)
             [] D(i, b, 12) = 7 -> Val(a.name, p)
             [] D(i, b, 12) = 8 -> Data(a.name, [k \in 1..(1 + D(i, b + 8, 5)) |-> PtD(i, b + 9 + 2 * k, a, x)])
             [] D(i, b, 12) = 9 /\ D(i, b + 60, 2) = 0 -> Data(a.name, [k \in 1..(2 + D(i, b + 8, 4)) |-> PtD(i, b + 9 + 2 * k, a, x)])
             [] D(i, b, 12) = 9 -> Op(a.name, P(i, b + 9, Ops))
             [] D(i, b, 12) = 10 -> Op(a.name, P(i, b + 9, Ops))
             [] OTHER -> IF D(i, b + 9, 4) = 0 THEN OnePer(a.name) ELSE Whole(a.name)
  IN IF n = 1 THEN P(i, b, << Whole(a.name), Patt(a.name), Idx(a.name, <<0>>) >>)
     ELSE IF a.unit = "m" /\ ~HasValues(r) /\ r.f # "op" /\ D(i, b + 30, 5) = 0 THEN InUnit(r, "mm") ELSE r
ReqI(i, b, a) ==
  IF a.pat.on THEN PatReqI(i, b, a)
  ELSE IF a.comp THEN CompSelD(i, b, a)
  ELSE IF D(i, b, 4) = 0 THEN Op(a.name, P(i, b + 1, SubSeq(Ops, 1, 7)))
  ELSE SelD(i, b + 2, a, "")
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 10) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, 100 * S[j] + 20, o.axes[S[j]])])
\* the field with every slice written out on an explicit axis; only for piecewise-linear patterns without
\* doubled places, the others have no explicit equivalent that can be interpolated
Written(o) ==
  [ExpandField(o) EXCEPT
     !.axes = [d \in 1..Len(o.axes) |-> IF o.axes[d].pat.on
                 THEN [o.axes[d] EXCEPT !.x = FullX(o.axes[d]), !.pat = NoPat] ELSE Expand(o.axes[d])],
     !.val = FullArr(o).v]
\* requests that mean the same on the expanded field
SameOn(a, r) == r.f \in {"whole", "idx", "range", "ivl", "gt", "lt"} \/ (r.f = "op" /\ r.op \in {"sum", "max", "min"})
CallsI(i, o) ==
  LET rs == TLCEval(ReqsI(i, o)) IN
  <<Get(1, rs), [Get(1, rs) EXCEPT !.sq = FALSE]>>
  \o (IF \A j \in 1..Len(rs) : rs[j].f # "small" /\ rs[j].f # "one" /\
           \A d \in 1..Len(o.axes) : o.axes[d].pat.on /\ o.axes[d].name = rs[j].ax => SameOn(o.axes[d], rs[j])
      THEN <<Get(2, rs)>> ELSE <<>>)
K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldI(i)) IN CallN(i, <<o, TLCEval(Written(o))>>, TLCEval(CallsI(i, o)))
Spec == Init /\ [][Next]_vars
\* the stored slices answer as the expanded field
SameAns(a, b) == a.k = b.k /\ a.axes = b.axes /\ a.sh = b.sh /\ \A j \in 1..Len(a.v) : SameNum(a.v[j], b.v[j])
AsExpanded == Len(log) = 3 => log[1].ans.k = "unspec" \/ log[3].ans.k = "unspec" \/ SameAns(log[1].ans, log[3].ans)
=============================================================================

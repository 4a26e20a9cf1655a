------------------------------- MODULE MC_C03 -------------------------------
\* Selection requests: every form, any number and order of axes, colliding names.
EXTENDS Scen

NameSets == << <<"time", "angle", "z">>, <<"x", "xx", "axx">>, <<"speed", "time", "phase">>,
               <<"angle", "time", "radius">>, <<"a", "time_a", "z">>, <<"freq_id", "max_load", "minute">>,
               <<"z", "zone", "time">> >>
Steps == << One, <<1, 2>>, <<1, 4>>, I(2), I(3) >>
Starts == << Zero, Zero, One, <<-3, 2>>, <<5, 4>> >>
AxisN(i, d) == 1 + Draw(Seed, i, 10 + d, 4)
AxisI(i, d) ==
  LET nm == NameSets[Draw(Seed, i, 1, Len(NameSets)) + 1][d]
      n == AxisN(i, d)
      x0 == Pick(Seed, i, 20 + d, Starts)
      h == Pick(Seed, i, 30 + d, Steps)
      warp == nm \notin {"time", "angle", "z"} /\ Draw(Seed, i, 40 + d, 2) = 1
      x == [j \in 1..n |-> RAdd(x0, RMul(h, I(IF warp THEN (j * j + j) \div 2 ELSE j)))]
  IN MkAxis(nm, IF nm = "time" THEN "s" ELSE IF nm = "angle" THEN "rad" ELSE "m", 0, x, NoSym)
NAx(i) == 1 + Draw(Seed, i, 2, 3)
FieldI(i) ==
  LET axes == [d \in 1..NAx(i) |-> AxisI(i, d)]
  IN MkField(IF axes[1].name = "time" THEN "DataTime" ELSE "DataND", axes,
             Vals(i, Prod([d \in 1..NAx(i) |-> NStored(axes[d])])))
Near(i, s, x) ==  \* a value on or close to a sample (never half way)
  LET j == Draw(Seed, i, s, Len(x)) + 1
  IN RAdd(x[j], Pick(Seed, i, s + 1, <<Zero, Zero, <<1, 16>>, <<-1, 16>>>>))
\* slot base b separates the axes
ReqI(i, a, b) ==
  LET n == Len(a.x) k == Draw(Seed, i, b, 12)
      p == Near(i, b + 1, a.x) q == Near(i, b + 3, a.x)
      lo == IF RLt(p, q) THEN p ELSE q   hi == IF RLt(p, q) THEN q ELSE p
  IN CASE k \in {0, 1} -> Whole(a.name)
       [] k = 2 -> Idx(a.name, <<Draw(Seed, i, b + 5, 2 * n + 1) - n>>)
       [] k = 3 -> Idx(a.name, <<Draw(Seed, i, b + 5, n), Draw(Seed, i, b + 6, n)>>)
       [] k = 4 -> LET s == Draw(Seed, i, b + 5, n) IN Range(a.name, s, s + 1 + Draw(Seed, i, b + 6, n - s))
       [] k = 5 -> Val(a.name, p)
       [] k = 6 -> Ivl(a.name, lo, hi)
       [] k = 7 -> Gt(a.name, p)
       [] k = 8 -> Lt(a.name, p)
       [] k = 9 -> IF n > 1 THEN ValList(a.name, <<a.x[1], RMul(<<1, 3>>, RAdd(a.x[1], RMul(I(2), a.x[2]))), a.x[n]>>) ELSE Whole(a.name)
       [] k = 10 -> Idx(a.name, <<n - 1, 0, Draw(Seed, i, b + 5, n)>>)
       [] OTHER -> OnePer(a.name)
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : Draw(Seed, i, 60 + d, 6) # 0)
      rs == [j \in 1..Len(S) |-> ReqI(i, o.axes[S[j]], 100 + 20 * S[j])]
      ex == IF Draw(Seed, i, 64, 4) = 0 THEN <<Whole("absent")>> ELSE <<>>
  IN Perm(i, 70, rs \o ex)
CallI(i, o) == [Get(1, ReqsI(i, o)) EXCEPT !.sq = Draw(Seed, i, 65, 3) # 0]

K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldI(i)) c == TLCEval(CallI(i, o)) r == TLCEval(Answer(o, c.reqs, c.u, c.sq)) IN
       /\ heap' = <<o>>
       /\ log' = <<[call |-> c, ans |-> r]>>
       /\ cid' = i
       /\ Write([id |-> i, objs |-> <<o>>, steps |-> <<[call |-> c, ans |-> r]>>])
Spec == Init /\ [][Next]_vars

\* the order in which axes are asked does not matter, and asking an axis that is not there changes nothing
Reversed(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
AnyOrder == log # <<>> =>
  LET c == log[1].call known == SelectSeq(c.reqs, LAMBDA q : q.ax # "absent") IN
  /\ Answer(heap[1], Reversed(c.reqs), c.u, c.sq) = log[1].ans
  /\ Answer(heap[1], known, c.u, c.sq) = log[1].ans
\* as many values as coordinates
Counted == (log # <<>> /\ log[1].ans.k = "ok") => Len(log[1].ans.v) = Prod(log[1].ans.sh)
=============================================================================

-------------------------------- MODULE Scen --------------------------------
(***************************************************************************)
(* Building blocks of drawn scenarios.  Every choice is a function of the  *)
(* seed, the case number i and a slot; b is the first slot an operator may *)
(* use, so independent parts of a scenario use disjoint slots.             *)
(***************************************************************************)
EXTENDS SDT

D(i, s, n) == Draw(Seed, i, s, n)
P(i, s, seq) == Pick(Seed, i, s, seq)

\* how the axis is written: explicit values or one of the linspace forms
AsLin(a, k) ==
  LET n == Len(a.x) h == StepOf(a)
      l(form, fin, ep) == [on |-> TRUE, ini |-> a.x[1], fin |-> fin, step |-> h, num |-> n, ep |-> ep, form |-> form]
  IN IF n = 1 THEN a
     ELSE CASE k = 1 -> [a EXCEPT !.lin = l("fn", a.x[n], TRUE)]
            [] k = 2 -> [a EXCEPT !.lin = l("fn", RAdd(a.x[n], h), FALSE)]
            [] k = 3 -> [a EXCEPT !.lin = l("sn", Zero, TRUE)]
            [] k = 4 -> [a EXCEPT !.lin = l("fs", a.x[n], TRUE)]
            [] k = 5 -> [a EXCEPT !.lin = l("sn", Zero, FALSE)]
            [] k = 6 -> [a EXCEPT !.lin = l("fs", RAdd(a.x[n], h), FALSE)]
            [] OTHER -> a

Syms == << NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>
\* an axis with drawn storage; names "time", "angle", "z" get their usual unit.
\* slots b .. b+7
AxisD(i, b, name, minN, maxN, syms) ==
  LET n == minN + D(i, b, maxN - minN + 1)
      sym == P(i, b + 1, syms)
      x0 == P(i, b + 2, << Zero, Zero, Zero, One, <<-3, 2>>, <<5, 4>> >>)
      h == P(i, b + 3, << One, <<1, 2>>, <<1, 4>>, I(2), <<1, 8>> >>)
      whole == n * sym.n
      a0 == IF name = "angle"
            THEN MkAxis(name, "rad", 1, GridX(IF D(i, b + 2, 4) = 0 THEN <<1, 3>> ELSE Zero, Q(2, whole), n), sym)
            ELSE MkAxis(name, IF name = "time" THEN "s" ELSE "m", 0, GridX(x0, h, n), sym)
      a1 == IF n = 1 /\ sym.t # "none" THEN [a0 EXCEPT !.delta = IF name = "angle" THEN Q(2, whole) ELSE h] ELSE a0
  IN AsLin(a1, D(i, b + 4, 8))
\* an axis with uneven coordinates and no symmetry; slots b .. b+3
UnevenD(i, b, name, minN, maxN) ==
  LET n == minN + D(i, b, maxN - minN + 1)
      x0 == P(i, b + 1, << Zero, One, <<-7, 2>> >>)
      h == P(i, b + 2, << One, <<1, 2>>, <<1, 4>> >>)
  IN MkAxis(name, "m", 0, [j \in 1..n |-> RAdd(x0, RMul(h, I((j * j + j) \div 2)))], NoSym)
\* component axis
Labels == << "A", "B", "AB", "r0", "x y", "C" >>
CompD(i, b, name, maxN) ==
  [MkAxis(name, "", 0, <<>>, NoSym) EXCEPT !.comp = TRUE, !.lab = SubSeq(Labels, 1, 1 + D(i, b, maxN))]

NVals(axes) == Prod([d \in 1..Len(axes) |-> NStored(axes[d])])
FieldOf(i, axes) ==
  MkField(IF axes[1].name \in {"time", "angle"} THEN "DataTime" ELSE "DataND", axes, Vals(i, NVals(axes)))

(* ------------------------------ requests ------------------------------- *)
\* coordinates that may be asked exactly (no rounding between spec and code)
Exactly(a, u) == a.e = 0 /\ (u = "" \/ u = "SI" \/ u = a.unit)
\* a value on (when exact) or beside a sample of the whole axis, in the unit u. slots b, b+1
NearD(i, b, a, c, exact) ==
  LET j == D(i, b, Len(c.x)) + 1
      h == IF Len(c.x) = 1 THEN One ELSE IF j = Len(c.x) THEN RSub(c.x[j], c.x[j - 1]) ELSE RSub(c.x[j + 1], c.x[j])
      q == IF exact THEN P(i, b + 1, << Zero, Zero, <<1, 4>>, <<-1, 4>> >>) ELSE P(i, b + 1, << <<1, 4>>, <<-1, 4>> >>)
  IN RAdd(c.x[j], RMul(q, h))
\* any selection of an axis in the unit u; slots b .. b+9
SelD(i, b, a, u) ==
  LET c == CoordsIn(a, u) n == NFull(a)
      k == D(i, b, 14)
      ex == Exactly(a, u)
      p == NearD(i, b + 1, a, c, ex) q == NearD(i, b + 3, a, c, ex)
      lo == IF RLt(p, q) THEN p ELSE q   hi == IF RLt(p, q) THEN q ELSE p
      r == CASE k \in {0, 1} -> Whole(a.name)
             [] k = 2 -> Idx(a.name, <<D(i, b + 5, 2 * n + 1) - n>>)
             [] k = 3 -> Idx(a.name, <<D(i, b + 5, n), D(i, b + 6, n)>>)
             [] k = 4 -> LET s == D(i, b + 5, n) IN Range(a.name, s, s + 1 + D(i, b + 6, n - s))
             [] k = 5 -> Val(a.name, p)
             [] k = 6 -> Ivl(a.name, lo, hi)
             [] k = 7 -> Gt(a.name, p)
             [] k = 8 -> Lt(a.name, p)
             [] k = 9 -> IF n > 2 THEN ValList(a.name, <<c.x[1], RMul(<<1, 3>>, RAdd(c.x[1], RMul(I(2), c.x[2]))), c.x[n - 1]>>) ELSE Whole(a.name)
             [] k = 10 -> Idx(a.name, <<n - 1, 0, D(i, b + 5, n)>>)
             [] k = 11 -> OnePer(a.name)
             [] k = 12 -> Small(a.name)
             [] OTHER -> IF n > 2 THEN Data(a.name, <<c.x[2], RMul(<<1, 2>>, RAdd(c.x[n - 1], c.x[n])), c.x[1]>>) ELSE Whole(a.name)
  IN IF ~c.ok THEN InUnit(Whole(a.name), u) ELSE InUnit(WithE(r, c.e), u)
CompSelD(i, b, a) ==
  LET n == Len(a.lab) IN
  CASE D(i, b, 3) = 0 -> Whole(a.name)
    [] D(i, b, 3) = 1 -> Idx(a.name, <<D(i, b + 1, n)>>)
    [] OTHER -> Idx(a.name, <<D(i, b + 1, n), D(i, b + 2, n)>>)

(* -------------------------- one-call behaviours ------------------------- *)
Call1(i, o, c) ==
  LET r == TLCEval(Respond(<<o>>, c)) IN
  /\ heap' = <<o>>
  /\ log' = <<[call |-> c, ans |-> r]>>
  /\ cid' = i
  /\ Write([id |-> i, objs |-> <<o>>, steps |-> <<[call |-> c, ans |-> r]>>])
\* several calls on given objects
CallN(i, objs, cs) ==
  LET r == TLCEval(Run(objs, cs)) IN
  /\ heap' = r.heap
  /\ log' = r.log
  /\ cid' = i
  /\ Write([id |-> i, objs |-> objs, steps |-> r.log])
=============================================================================

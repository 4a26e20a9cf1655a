-------------------------------- MODULE Req ---------------------------------
(***************************************************************************)
(* The request language and its answers.                                   *)
(*                                                                         *)
(* One axis request r:                                                     *)
(*   ax   axis name          f   form                                      *)
(*   ns   integers           vs  rationals (in units of pi^e of the axis)  *)
(*   op   reduction          u   unit or normalization asked for ("" none) *)
(*   e    power of pi of vs  arrow  normalization written axis->name       *)
(*                                                                         *)
(* Answers are defined on the whole (expanded) field only.                 *)
(***************************************************************************)
EXTENDS Axis, Units

RQ(ax, f) == [ax |-> ax, f |-> f, ns |-> <<>>, vs |-> <<>>, e |-> 0, op |-> "", u |-> "", arrow |-> FALSE]
Whole(ax) == RQ(ax, "whole")
OnePer(ax) == RQ(ax, "one")
Small(ax) == RQ(ax, "small")
Anti(ax) == RQ(ax, "anti")
Patt(ax) == RQ(ax, "pattern")
Idx(ax, is) == [RQ(ax, "idx") EXCEPT !.ns = is]
Range(ax, i, j) == [RQ(ax, "range") EXCEPT !.ns = <<i, j>>]
Val(ax, v) == [RQ(ax, "val") EXCEPT !.vs = <<v>>]
Ivl(ax, p, q) == [RQ(ax, "ivl") EXCEPT !.vs = <<p, q>>]
Gt(ax, p) == [RQ(ax, "gt") EXCEPT !.vs = <<p>>]
Lt(ax, p) == [RQ(ax, "lt") EXCEPT !.vs = <<p>>]
ValList(ax, s) == [RQ(ax, "list") EXCEPT !.vs = s]
Data(ax, s) == [RQ(ax, "data") EXCEPT !.vs = s]
Op(ax, o) == [RQ(ax, "op") EXCEPT !.op = o]
InUnit(r, u) == [r EXCEPT !.u = u]
Arrow(r) == [r EXCEPT !.arrow = TRUE]
WithE(r, e) == [r EXCEPT !.e = e]
HasValues(r) == r.f \in {"val", "ivl", "gt", "lt", "list", "data"}

Reductions == {"sum", "mean", "rms", "rss", "max", "min", "integrate"}
Keeping == {"derivate", "antiderivate", "integrate_local"}

(* --------------------- coordinates in a unit or normalization ----------- *)
\* result [ok, e, x]: coordinates of the whole axis in the unit u
NormNamed(a, u) == {k \in 1..Len(a.norms) : a.norms[k].name = u}
ApplyNorm(n, x, full) ==
  CASE n.k = "ref" -> [i \in 1..Len(x) |-> RDiv(x[i], n.p)]
    [] n.k = "affine" -> [i \in 1..Len(x) |-> RAdd(RMul(x[i], n.p), n.q)]
    [] n.k = "indices" -> [i \in 1..Len(x) |-> I(i - 1)]
    [] n.k = "vector" -> full
    [] n.k = "func" -> [i \in 1..Len(x) |-> RAdd(RMul(x[i], x[i]), n.p)]
CoordsIn(a, u) ==
  LET x == FullX(a) IN
  IF u = "" \/ u = "SI" \/ u = a.unit THEN [ok |-> TRUE, e |-> a.e, x |-> x]
  ELSE IF NormNamed(a, u) # {}
  THEN LET n == a.norms[CHOOSE k \in NormNamed(a, u) : TRUE]
       IN IF n.u \notin {"SI", a.unit} THEN [ok |-> FALSE, e |-> 0, x |-> <<>>]
          ELSE [ok |-> TRUE, e |-> IF n.k \in {"ref", "affine"} THEN a.e - n.e ELSE 0,
                x |-> TLCEval(ApplyNorm(n, x, FullX([a EXCEPT !.x = n.vec])))]
  ELSE IF ~Convertible(a.unit, u) THEN [ok |-> FALSE, e |-> 0, x |-> <<>>]
  ELSE LET f == Factor(a.unit, u)
       IN [ok |-> TRUE, e |-> a.e + f.e, x |-> TLCEval([i \in 1..Len(x) |-> RMul(x[i], f.r)])]

(* --------------------------- selections -------------------------------- *)
\* A selection is a sequence of linear combinations of whole-axis entries:
\* sel[k] = <<<<i, w>>, ...>>, plus the coordinates returned.
Sel(is, x) == [k |-> "sel", w |-> [j \in 1..Len(is) |-> <<<<is[j], One>>>>], x |-> [j \in 1..Len(is) |-> x[is[j]]]]
Refused == [k |-> "err"]
Unspec == [k |-> "unspec"]     \* outside what the properties state

SeqOf(n) == [i \in 1..n |-> i]
Within(x, p, q) == SelectSeq(SeqOf(Len(x)), LAMBDA i : RLe(p, x[i]) /\ RLe(x[i], q))
MinOf(x) == BestFrom(x, 2, x[1], FALSE)
MaxOf(x) == BestFrom(x, 2, x[1], TRUE)
Dist(x, v) == RAbs(RSub(x, v))
Nearest(x, v) ==
  CHOOSE i \in 1..Len(x) : /\ \A j \in 1..Len(x) : RLe(Dist(x[i], v), Dist(x[j], v))
                           /\ \A j \in 1..(i - 1) : RLt(Dist(x[i], v), Dist(x[j], v))
\* two samples at the same distance: which one is taken is not stated
Tied(x, v) == \E i, j \in 1..Len(x) : i # j /\ Dist(x[i], v) = Dist(x[j], v)
                 /\ \A k \in 1..Len(x) : RLe(Dist(x[i], v), Dist(x[k], v))
\* linear interpolation at v: combination of the two neighbours
InterpAt(x, v) ==
  IF \E i \in 1..Len(x) : x[i] = v THEN <<<<CHOOSE i \in 1..Len(x) : x[i] = v, One>>>>
  ELSE LET i == CHOOSE i \in 1..(Len(x) - 1) : RLt(x[i], v) /\ RLt(v, x[i + 1])
           t == RDiv(RSub(v, x[i]), RSub(x[i + 1], x[i]))
       IN <<<<i, RSub(One, t)>>, <<i + 1, t>>>>
Interp(x, vs) ==
  IF \E j \in 1..Len(vs) : RLt(vs[j], MinOf(x)) \/ RLt(MaxOf(x), vs[j]) THEN Unspec
  ELSE [k |-> "sel", w |-> [j \in 1..Len(vs) |-> InterpAt(x, vs[j])], x |-> vs]

\* 0-based, possibly negative index of the whole axis
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
InRange(i, n) == i < n /\ i >= -n

NearestSel(x, v) ==
  IF RLt(v, MinOf(x)) \/ RLt(MaxOf(x), v) THEN [k |-> "nan", x |-> <<v>>]
  ELSE IF Tied(x, v) THEN Unspec
  ELSE LET i == Nearest(x, v) IN [k |-> "sel", w |-> <<<<<<i, One>>>>>>, x |-> <<v>>]

NonEmpty(s) == IF s.k = "sel" /\ s.x = <<>> THEN Unspec ELSE s

\* selection on a whole axis with coordinates x; storage-related forms are given by lengths
SelectOn(r, x, nOne, nSmall, isAper, isPat) ==
  LET n == Len(x) IN
  CASE r.f = "whole" -> Sel(SeqOf(n), x)
    [] r.f = "one" -> IF isPat THEN Refused ELSE Sel(SeqOf(nOne), x)
    [] r.f = "small" -> IF isPat THEN Unspec ELSE Sel(SeqOf(nSmall), x)
    [] r.f = "anti" -> IF isAper THEN Sel(SeqOf(nSmall), x) ELSE Refused
    [] r.f = "idx" ->
         IF \E j \in 1..Len(r.ns) : ~InRange(r.ns[j], n) THEN Refused
         ELSE Sel([j \in 1..Len(r.ns) |-> PyIdx(r.ns[j], n)], x)
    [] r.f = "range" ->
         IF r.ns[1] < 0 \/ r.ns[2] > n \/ r.ns[1] >= r.ns[2] THEN Unspec
         ELSE Sel([j \in 1..(r.ns[2] - r.ns[1]) |-> r.ns[1] + j], x)
    [] r.f = "ivl" -> NonEmpty(Sel(Within(x, r.vs[1], r.vs[2]), x))
    [] r.f = "gt" -> NonEmpty(Sel(Within(x, r.vs[1], MaxOf(x)), x))
    [] r.f = "lt" -> NonEmpty(Sel(Within(x, MinOf(x), r.vs[1]), x))
    [] r.f = "val" -> NearestSel(x, r.vs[1])
    [] r.f \in {"list", "data"} -> IF ~Increasing(x) THEN Unspec
                                  ELSE IF Len(r.vs) = 1 THEN NearestSel(x, r.vs[1]) ELSE Interp(x, r.vs)

ApplySel(s, line) ==
  TLCEval([j \in 1..Len(s.w) |->
     IF Len(s.w[j]) = 1 THEN line[s.w[j][1][1]]
     ELSE SumSeq([m \in 1..Len(s.w[j]) |-> Mul(s.w[j][m][2], line[s.w[j][m][1]])])])

(* --------------------------- reductions -------------------------------- *)
\* closed trapezoid of a periodic, uniformly sampled line = step * sum;
\* open trapezoid on pattern axes
RECURSIVE TrapFrom(_, _, _, _)
TrapFrom(x, l, i, acc) ==
  IF i >= Len(x) THEN acc
  ELSE TrapFrom(x, l, i + 1,
         Add(acc, Mul(RMul(<<1, 2>>, RSub(x[i + 1], x[i])), Add(l[i], l[i + 1]))))
Trapz(x, l) == TrapFrom(x, l, 1, Zero)
\* periodic line, any spacing: the closing interval is as long as the first one
ClosedTrapz(x, l) ==
  Add(Trapz(x, l), Mul(RMul(<<1, 2>>, RSub(x[2], x[1])), Add(l[Len(l)], l[1])))
Length(a, x) == IF a.pat.on THEN RSub(x[Len(x)], x[1])
                ELSE RAdd(RSub(x[Len(x)], x[1]), RSub(x[2], x[1]))
Integral(a, x, l) == IF a.pat.on THEN Trapz(x, l) ELSE ClosedTrapz(x, l)
Scaled(e, v) == IF e = 0 \/ v = Zero THEN v ELSE Mul(Term("pipow", <<I(e)>>), v)
IntegralE(a, x, l) == Scaled(a.e, Integral(a, x, l))

\* samples that integrals are made of: the stored ones, all of them for patterns
NSamples(a) == IF a.pat.on THEN NFull(a) ELSE NStored(a)
\* x, l: whole axis and whole line
ReduceWith(op, a, x, l, phys) ==
  CASE op = "sum" -> SumSeq(l)
    [] op = "max" -> MaxSeq(l)
    [] op = "min" -> MinSeq(l)
    [] op = "mean" -> IF phys THEN Mul(RInv(Length(a, x)), Integral(a, x, l))
                      ELSE Mul(<<1, Len(l)>>, SumSeq(l))
    [] op = "rms" -> LET s == [i \in 1..Len(l) |-> Sqr(l[i])]
                     IN IF phys THEN Sqrt(Mul(RInv(Length(a, x)), Integral(a, x, s)))
                        ELSE Sqrt(Mul(<<1, Len(l)>>, SumSeq(s)))
    [] op = "rss" -> LET s == [i \in 1..Len(l) |-> Sqr(l[i])]
                     IN IF phys THEN Sqrt(IntegralE(a, x, s)) ELSE Sqrt(SumSeq(s))
    [] op = "integrate" -> IntegralE(a, x, l)
Reduce(op, a, x, l) == ReduceWith(op, a, x, l, IsPhys(a) /\ NSamples(a) > 1)

CanReduce(op, a) == op # "integrate" \/ (IsPhys(a) /\ NSamples(a) > 1)

(* ----------- derivative and primitive on the stored samples ------------ *)
\* neighbours on the periodic whole axis (x, l whole)
Wrap(i, n) == ((i - 1) % n) + 1
PerDerivAt(x, l, i) ==
  LET n == Len(l) h == RSub(x[2], x[1])
  IN Mul(RInv(RMul(I(2), h)), Sub(l[Wrap(i + 1, n)], l[Wrap(i - 1, n)]))
\* primitive from the first sample
RECURSIVE CumFrom(_, _, _, _)
CumFrom(x, l, i, acc) ==
  IF i > Len(x) THEN acc
  ELSE CumFrom(x, l, i + 1,
        Append(acc, Add(acc[i - 1], Mul(RMul(<<1, 2>>, RSub(x[i], x[i - 1])), Add(l[i - 1], l[i])))))
Cum(x, l) == CumFrom(x, l, 2, <<Zero>>)
MeanOf(s) == Mul(<<1, Len(s)>>, SumSeq(s))
\* zero-mean primitive on one period (p, q: one-period coordinates and line)
ZeroMean(s) == LET m == MeanOf(s) IN TLCEval([i \in 1..Len(s) |-> Sub(s[i], m)])
=============================================================================

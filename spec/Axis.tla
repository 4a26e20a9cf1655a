-------------------------------- MODULE Axis --------------------------------
(***************************************************************************)
(* Axes.  An axis record holds the *stored* coordinates and how the whole  *)
(* axis follows from them:                                                 *)
(*   x     stored coordinates (rationals, in units of pi^e)                *)
(*   sym   [t |-> "none"|"per"|"aper", n |-> count]: the stored part is    *)
(*         repeated n times, with alternating sign for "aper"              *)
(*   pat   [on, idx, whole, step]: pattern axes, whole axis = stored part  *)
(*         read through idx                                                *)
(*   turns spectral axes: number of repetitions of the period the lines    *)
(*         belong to (1 elsewhere)                                         *)
(*   comp  component axis (labels lab instead of coordinates)              *)
(*   lin   how a linspace is written down (initial/final/step/...)         *)
(*   norms normalizations defined on the axis                              *)
(***************************************************************************)
EXTENDS NDArr

NoSym == [t |-> "none", n |-> 1]
Per(n) == [t |-> "per", n |-> n]
APer(n) == [t |-> "aper", n |-> n]
NoPat == [on |-> FALSE, idx |-> <<>>, whole |-> <<>>, step |-> TRUE]
NoLin == [on |-> FALSE, ini |-> Zero, fin |-> Zero, step |-> Zero, num |-> 0, ep |-> TRUE, form |-> "none"]

MkAxis(name, unit, e, x, sym) ==
  [name |-> name, unit |-> unit, e |-> e, x |-> x, sym |-> sym, delta |-> Zero,
   turns |-> 1, pat |-> NoPat, comp |-> FALSE, lab |-> <<>>, lin |-> NoLin, norms |-> <<>>]

NStored(a) == IF a.comp THEN Len(a.lab) ELSE Len(a.x)
StepOf(a) == IF Len(a.x) = 1 THEN a.delta ELSE RSub(a.x[2], a.x[1])
Span(a) == RMul(I(Len(a.x)), StepOf(a))     \* length of the stored part, closed by one step
NFull(a) == IF a.pat.on THEN Len(a.pat.idx) ELSE NStored(a) * a.sym.n
NOne(a) == IF a.sym.t = "aper" THEN 2 * NStored(a) ELSE NStored(a)

\* i-th entry of the whole axis: stored index, sign, coordinate
SIdx(a, i) == IF a.pat.on THEN a.pat.idx[i] ELSE ((i - 1) % NStored(a)) + 1
SSgn(a, i) == IF a.sym.t = "aper" /\ ((i - 1) \div NStored(a)) % 2 = 1 THEN -1 ELSE 1
Coord(a, i) ==
  IF a.pat.on THEN (IF a.pat.whole # <<>> THEN a.pat.whole[i] ELSE a.x[a.pat.idx[i]])
  ELSE IF i <= Len(a.x) THEN a.x[i]
  ELSE RAdd(a.x[SIdx(a, i)], RMul(I((i - 1) \div Len(a.x)), Span(a)))
FullX(a) == IF a.comp THEN <<>> ELSE TLCEval([i \in 1..NFull(a) |-> Coord(a, i)])
FullLine(a, line) ==
  IF a.sym.t = "none" /\ ~a.pat.on THEN line
  ELSE TLCEval([i \in 1..NFull(a) |->
         IF SSgn(a, i) = 1 THEN line[SIdx(a, i)] ELSE Neg(line[SIdx(a, i)])])

\* the same whole axis, stored in full
Expand(a) ==
  IF a.pat.on \/ a.sym.t = "none" THEN a
  ELSE [a EXCEPT !.x = FullX(a), !.sym = NoSym, !.lin = NoLin, !.delta = Zero,
                 !.norms = [k \in 1..Len(a.norms) |->
                     IF a.norms[k].k = "vector"
                     THEN [a.norms[k] EXCEPT !.vec = FullX([a EXCEPT !.x = a.norms[k].vec])]
                     ELSE a.norms[k]]]

\* the part of the whole axis named by a request on storage
PartLen(a, part) ==
  CASE part = "whole" -> NFull(a)
    [] part = "one" -> NOne(a)
    [] OTHER -> NStored(a)
PartX(a, part) == SubSeq(FullX(a), 1, PartLen(a, part))
\* the same coordinates stored on one n-th (half period of n periods); unchanged when they do not divide
Rewrite(a, n, aper) ==
  LET k == IF aper THEN 2 * n ELSE n M == NFull(a) m == M \div k
      cut(v) == TLCEval(SubSeq(FullX([a EXCEPT !.x = v]), 1, m))
  IN IF M % k # 0 THEN a
     ELSE [a EXCEPT !.x = cut(a.x), !.lin = NoLin,
             !.delta = IF m = 1 THEN (IF M = 1 THEN Zero ELSE RSub(Coord(a, 2), Coord(a, 1))) ELSE Zero,
             !.sym = IF aper THEN APer(k) ELSE IF k = 1 THEN NoSym ELSE Per(k),
             !.norms = [j \in 1..Len(a.norms) |->
                 IF a.norms[j].k = "vector" THEN [a.norms[j] EXCEPT !.vec = cut(a.norms[j].vec)] ELSE a.norms[j]]]

IsPhys(a) == a.name \in {"time", "angle", "z"}
Increasing(x) == \A i \in 1..(Len(x) - 1) : RLt(x[i], x[i + 1])
UniformX(x) == \A i \in 1..(Len(x) - 2) : RSub(x[i + 2], x[i + 1]) = RSub(x[i + 1], x[i])
=============================================================================

-------------------------------- MODULE ScenN -------------------------------
(* Drawn fields whose axes and values have units and normalizations, and a   *)
(* drawn request on them.                                                    *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"x">>, <<"z">>, <<"freqs">>, <<"time", "angle">>, <<"x", "time">>, <<"z", "x">>, <<"freqs", "x">>,
              <<"speed", "time">>, <<"time", "phase">>, <<"angle", "time", "z">>, <<"x", "phase", "angle">> >>
Nrm(name, k, u, p, q, e, vec) == [name |-> name, k |-> k, u |-> u, p |-> p, q |-> q, e |-> e, vec |-> vec]
\* vectors go on at a constant increment over the periods when there are any
VecI(i, b, a) ==
  LET n == Len(a.x) IN
  IF a.sym.t # "none" \/ D(i, b, 2) = 0 THEN GridX(P(i, b + 1, << Zero, I(2), <<-1, 2>> >>), P(i, b + 2, << One, <<1, 4>>, I(-3) >>), n)
  ELSE [j \in 1..n |-> RAdd(I((j * j) % 7), <<1, 2>>)]
NormsI(i, b, a) ==
  LET unit == P(i, b, << "SI", "SI", a.unit, "Other" >>)
      refs == << Nrm("ref", "ref", unit, P(i, b + 1, << I(3), <<1, 2>>, I(-2) >>), Zero, IF D(i, b + 2, 2) = 0 THEN 0 ELSE a.e, <<>>),
                 Nrm("ref2", "ref", "SI", I(5), Zero, 0, <<>>) >>
      aff == << Nrm("aff", "affine", unit, P(i, b + 3, << I(2), <<-1, 4>>, One >>), P(i, b + 4, << Zero, I(7), <<-3, 2>> >>), IF D(i, b + 2, 2) = 0 THEN 0 ELSE a.e, <<>>) >>
      rest == << Nrm("inds", "indices", unit, Zero, Zero, 0, <<>>), Nrm("vect", "vector", unit, Zero, Zero, 0, VecI(i, b + 5, a)) >>
      fun == << Nrm("fun", "func", unit, P(i, b + 8, << One, <<-1, 2>> >>), Zero, 0, <<>>) >>
  IN CASE D(i, b + 9, 4) = 0 -> refs
       [] D(i, b + 9, 4) = 1 -> aff \o refs
       \* the function is defined on rational coordinates; vectors need an axis that can be repeated
       [] D(i, b + 9, 4) = 2 /\ a.e = 0 -> fun \o refs
       [] OTHER -> IF NStored(a) = 1 /\ a.sym.t # "none" THEN aff ELSE rest \o aff
LinesI(i, b) ==
  LET n == 1 + D(i, b, 6) h == P(i, b + 1, << One, I(50), <<1, 2>> >>)
  IN MkAxis("freqs", "Hz", 0, GridX(Zero, h, n), NoSym)
PatI(i, b) ==
  LET n == 1 + D(i, b, 3) m == n + D(i, b + 1, 3)
      pl == [k \in 1..m |-> IF k <= n THEN k ELSE 1 + D(i, b + 2 + k, n)]
      first == [s \in 1..n |-> s]
      whole == GridX(<<-1, 2>>, <<1, 2>>, m)
  IN [MkAxis("z", "m", 0, [s \in 1..n |-> whole[s]], NoSym) EXCEPT !.pat = [on |-> TRUE, idx |-> pl, whole |-> whole, step |-> FALSE]]
AxisI(i, b, name, big) ==
  IF name = "phase" THEN CompD(i, b, name, 3)
  ELSE LET a == TLCEval(IF name = "freqs" THEN LinesI(i, b)
                ELSE IF name = "z" /\ D(i, b + 9, 2) = 0 THEN PatI(i, b)
                ELSE IF name \in {"x", "speed"} /\ D(i, b + 9, 2) = 0 THEN UnevenD(i, b, name, 1, big)
                ELSE AxisD(i, b, name, 1, big, Syms))
       IN IF D(i, b + 18, 5) = 0 THEN a
          ELSE [a EXCEPT !.norms = TLCEval(SelectSeq(NormsI(i, b + 20, a), LAMBDA n : ~(a.pat.on /\ n.k = "vector")))]
FNorms(i) == << Nrm("ref", "ref", "SI", P(i, 90, << I(4), <<1, 5>> >>), Zero, 0, <<>>), Nrm("pu", "affine", "SI", I(3), I(-1), 0, <<>>),
                Nrm("sq", "func", "SI", One, Zero, 0, <<>>) >>
FieldI(i) ==
  LET L == P(i, 1, Layouts)
      axes == TLCEval([d \in 1..Len(L) |-> AxisI(i, 100 * d, L[d], IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 8)])
      n == NVals(axes) cplx == D(i, 3, 5) = 0
      f == [FieldOf(i, axes) EXCEPT !.unit = P(i, 4, << "T", "T", "m", "N", "Pa" >>),
              !.cls = IF \E d \in 1..Len(axes) : axes[d].name = "freqs" THEN "DataFreq" ELSE @,
              !.norms = CASE D(i, 5, 3) = 0 -> <<>> [] D(i, 5, 3) = 1 -> SubSeq(FNorms(i), 1, 1) [] OTHER -> FNorms(i)]
  IN IF cplx THEN [f EXCEPT !.real = FALSE, !.val = [j \in 1..n |-> Complex(ValOf(i, j), ValOf(i + 1, j))]]
     ELSE IF D(i, 6, 4) = 0 THEN [f EXCEPT !.ints = TRUE] ELSE f
\* units and normalizations asked on an axis, known or not
AskI(i, b, a) ==
  LET own == [k \in 1..Len(a.norms) |-> a.norms[k].name]
      phys == CASE a.unit = "s" -> << "ms", "min" >> [] a.unit = "rad" -> << "°" >> [] a.unit = "m" -> << "mm", "km" >>
                [] a.unit = "Hz" -> << "kHz" >> [] OTHER -> <<>>
      k == D(i, b, 12)
  IN CASE k = 0 -> P(i, b + 1, << "kN", "missing", "V" >>)
       [] k = 1 -> ""
       [] k \in {2, 3, 4} /\ phys # <<>> -> P(i, b + 1, phys)
       [] own # <<>> -> P(i, b + 1, own)
       [] OTHER -> P(i, b + 1, <<"", a.unit, "SI">> \o phys)
Spelled(i, b, a, r) == IF NormNamed(a, r.u) # {} /\ D(i, b, 2) = 0 THEN Arrow(r) ELSE r
\* spectral request of a direct axis: coordinates of the lines
FftI(i, b, a, real) ==
  LET sa == TLCEval([SpectralAxis(a, real) EXCEPT !.norms = SelectSeq(a.norms, LAMBDA n : n.k \in {"ref", "affine", "indices"} /\ n.u = "SI" /\ n.e = 0
                      \* wavenumbers keep their sign
                      /\ (a.name = "angle" => n.k = "ref" /\ RLt(Zero, n.p)))])
      u == CASE D(i, b, 4) = 0 -> IF sa.name = "freqs" THEN "kHz" ELSE "dimless"
             [] D(i, b, 4) = 1 /\ sa.norms # <<>> -> P(i, b + 1, sa.norms).name
             [] OTHER -> ""
      c == CoordsIn(sa, u)
      r == CASE D(i, b + 2, 3) = 0 -> Idx(sa.name, <<D(i, b + 3, Len(sa.x))>>)
             [] D(i, b + 2, 3) = 1 /\ Len(c.x) > 1 -> Gt(sa.name, RMul(<<1, 2>>, RAdd(c.x[1], c.x[2])))
             [] OTHER -> Whole(sa.name)
  IN Spelled(i, b + 9, a, InUnit(WithE(r, c.e), u))
Plain(a) == ~a.pat.on /\ UniformX(a.x) /\ Increasing(a.x) /\ \A k \in 1..Len(a.norms) : a.norms[k].u # "Other"
ReqI(i, b, a, real) ==
  IF a.comp THEN CompSelD(i, b, a)
  ELSE IF a.name \in {"time", "angle"} /\ D(i, b, 4) = 0 /\ Plain(a) THEN FftI(i, b + 40, a, real)
  ELSE IF D(i, b + 1, 12) = 0 THEN InUnit(Op(a.name, P(i, b + 2, << "sum", "max", "min" >>)), IF real THEN AskI(i, b + 3, a) ELSE "")
  ELSE LET u == AskI(i, b + 3, a) r == SelD(i, b + 6, a, u)
       IN Spelled(i, b + 30, a, IF a.pat.on /\ r.f \in {"val", "list", "data"} THEN InUnit(Whole(a.name), u) ELSE r)
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 8) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, 100 * S[j] + 40, o.axes[S[j]], o.real)])
FUnitI(i, o) ==
  CASE D(i, 20, 8) = 0 -> P(i, 21, << "V", "unknown", "s" >>)
    [] D(i, 20, 8) \in {1, 2} -> (CASE o.unit = "T" -> P(i, 21, << "mT", "G" >>) [] o.unit = "m" -> P(i, 21, << "mm", "km" >>)
                             [] o.unit = "N" -> "kN" [] OTHER -> "Pa")
    [] D(i, 20, 8) \in {3, 4} -> P(i, 21, << "ref", "pu", "sq" >>)
    [] D(i, 20, 8) = 5 -> "->"
    [] OTHER -> ""
CallI(i, o) == [Get(1, ReqsI(i, o)) EXCEPT !.u = FUnitI(i, o), !.sq = D(i, 22, 2) = 0]
=============================================================================

-------------------------------- MODULE ScenV -------------------------------
(* Drawn vector fields and requests of their components.                     *)
EXTENDS ScenF

LayoutsV == << <<"angle">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "angle">>, <<"angle", "z">>, <<"time", "angle", "z">>,
               <<"x", "time", "angle">>, <<"angle", "phase">>, <<"time", "angle">> >>
\* angles: at most eight on the whole turn
AngleV(i, b, maxN) ==
  LET sym == P(i, b, << NoSym, NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>)
      n == IF sym.n = 1 THEN 1 + D(i, b + 1, maxN) ELSE IF sym.n < 4 THEN 1 + D(i, b + 1, 2) ELSE 1
      x0 == P(i, b + 2, << Zero, Zero, Zero, <<1, 4>> >>)
      a == MkAxis("angle", "rad", 1, GridX(x0, Q(2, n * sym.n), n), sym)
      a1 == IF n = 1 /\ sym.t # "none" THEN [a EXCEPT !.delta = Q(2, sym.n)] ELSE a
  IN [AsLin(a1, D(i, b + 3, 8)) EXCEPT !.norms =
        IF D(i, b + 4, 3) = 0 THEN <<[name |-> "distance", k |-> "ref", u |-> "m", p |-> I(4), q |-> Zero, e |-> 1, vec |-> <<>>]>> ELSE <<>>]
AxisV(i, b, name, m) ==
  CASE name = "angle" -> AngleV(i, b, IF m = 1 THEN 8 ELSE IF m = 2 THEN 6 ELSE 4)
    [] name = "phase" -> CompD(i, b, name, 3)
    [] name = "time" -> AxisF(i, b, name, TRUE, IF m = 3 THEN 2 ELSE 4)
    [] OTHER -> AxisD(i, b, name, 1, 3, << NoSym, NoSym, Per(2) >>)
AxesV(i) == LET L == P(i, 1, LayoutsV) IN TLCEval([d \in 1..Len(L) |-> AxisV(i, 100 * d, L[d], Len(L))])
CompV(i, k, axes, key) ==
  LET n == NVals(axes) IN
  [key |-> key, f |-> [MkField("DataTime", axes, [j \in 1..n |-> ValOf(i, 60 * k + j)])
     EXCEPT !.unit = "T", !.sym = P(i, 20 + k, <<"B_r", "X", "B_x">>), !.name = P(i, 25 + k, <<"Radial flux", "Field">>),
            !.norms = IF D(i, 30, 2) = 0 THEN <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> I(4), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]]
VecV(i) ==
  LET axes == AxesV(i) names == IF D(i, 3, 2) = 0 THEN Cyl ELSE Cart
      part == P(i, 4, << <<1, 2>>, <<1, 2>>, <<1>>, <<2>>, <<2, 1>>, <<>> >>)
      third == IF part = <<>> \/ D(i, 5, 2) = 0 THEN <<P(i, 6, <<names[3], names[3], "axial", "comp_z">>)>> ELSE <<>>
      keys == Perm(i, 7, [j \in 1..Len(part) |-> names[part[j]]] \o third)
  IN MkVec("Flux", P(i, 8, <<"B", "B_r">>), TLCEval([k \in 1..Len(keys) |-> CompV(i, k, axes, keys[k])]))
OpsV == << "sum", "mean", "rms", "integrate", "max", "sum" >>
\* fields of samples are also asked for lines
ReqV(i, b, a, real, lines) ==
  IF a.comp THEN (IF D(i, b, 4) = 0 THEN Op(a.name, P(i, b + 1, <<"sum", "mean">>)) ELSE CompSelD(i, b + 2, a))
  ELSE IF IsSpectral(a) THEN
    CASE D(i, b, 4) = 0 -> Idx(a.name, <<D(i, b + 1, Len(a.x))>>)
      [] OTHER -> Whole(a.name)
  ELSE CASE D(i, b, 9) \in {0, 1} -> Whole(a.name)
         [] D(i, b, 9) = 2 -> Op(a.name, P(i, b + 1, OpsV))
         [] D(i, b, 9) = 3 /\ lines /\ a.name \in {"time", "angle"} /\ a.x[1] = Zero -> Whole(SpectralOf(a.name))
         [] D(i, b, 9) = 4 /\ lines /\ a.name \in {"time", "angle"} /\ a.x[1] = Zero ->
              LET sa == SpectralAxis(a, real) IN Idx(sa.name, <<D(i, b + 1, Len(sa.x)), D(i, b + 2, Len(sa.x))>>)
         [] D(i, b, 9) = 5 /\ a.norms # <<>> /\ a.name = "angle" -> InUnit(P(i, b + 1, <<Whole("angle"), OnePer("angle"), Idx("angle", <<0>>)>>), P(i, b + 2, <<"distance", "°">>))
         [] OTHER -> SelD(i, b + 1, a, "")
ReqsV(i, b, f) ==
  LET S == SelectIdx(Len(f.axes), LAMBDA d : D(i, b + 90 + d, 10) # 0)
  IN Perm(i, b + 95, [j \in 1..Len(S) |-> ReqV(i, b + 20 * S[j], f.axes[S[j]], f.real, \A d \in 1..Len(f.axes) : ~IsSpectral(f.axes[d]))])
UnitV(i, b, f) == P(i, b, << "", "", "mT", IF f.norms # <<>> THEN "->" ELSE "", "SI" >>)
\* lines along time and angle, one sample or the sum along the others
HarmV(i, b, f) ==
  Perm(i, b + 95, [d \in 1..Len(f.axes) |->
    LET a == f.axes[d] IN
    IF IsSpectral(a) THEN Whole(a.name)
    ELSE IF a.comp \/ a.name \notin {"time", "angle"} \/ a.x[1] # Zero THEN (IF D(i, b + d, 3) = 0 THEN Op(a.name, "sum") ELSE Idx(a.name, <<0>>))
    ELSE IF D(i, b + d, 8) = 0 THEN Idx(a.name, <<D(i, b + 10, NStored(a))>>) ELSE Whole(SpectralOf(a.name))])
AskHarm(i, b, o, V) ==
  [m |-> "vec_harm", o |-> o, rep |-> P(i, b + 1, <<"xyz", "rphiz">>), reqs |-> TLCEval(HarmV(i, b + 5, V.comps[1].f)),
   u |-> UnitV(i, b + 2, V.comps[1].f), n |-> 1 + D(i, b + 3, 8)]
AskField(i, b, o, V) ==
  LET f == V.comps[1].f mag == D(i, b, 4) = 0 IN
  [m |-> "vec_along", o |-> o, rep |-> P(i, b + 1, <<"xyz", "rphiz">>), mag |-> mag, reqs |-> TLCEval(ReqsV(i, b + 5, f)),
   u |-> UnitV(i, b + 2, f), sq |-> mag \/ D(i, b + 3, 4) # 0]
\* no tables of fields that keep lines along one axis and samples along the other
HalfLines(f) == \E d \in 1..Len(f.axes) : IsSpectral(f.axes[d]) /\ \E e \in 1..Len(f.axes) : f.axes[e].name \in {"time", "angle"}
Ask(i, b, o, V) == IF D(i, b + 150, 5) = 0 /\ ~HalfLines(V.comps[1].f) THEN AskHarm(i, b, o, V) ELSE AskField(i, b, o, V)
=============================================================================

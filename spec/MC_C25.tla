------------------------------- MODULE MC_C25 -------------------------------
(* Files written by exports: fields of one to four axes and spectra, with    *)
(* slices, intervals, operations, units and several files.                   *)
EXTENDS ScenF

LayoutsX == << <<"time">>, <<"x">>, <<"time", "angle">>, <<"x", "time">>, <<"angle", "phase">>, <<"time", "angle", "z">>, <<"x", "phase", "time">>,
               <<"phase", "x", "z">>, <<"time", "x", "phase">>, <<"x", "y", "z", "time">>, <<"time", "angle">>, <<"freqs">>, <<"freqs", "x">>, <<"wavenumber", "freqs">> >>
LinesX(i, b, name) ==
  LET n == 2 + D(i, b, 4) IN
  MkAxis(name, IF name = "freqs" THEN "Hz" ELSE "dimless", 0, [j \in 1..n |-> IF name = "freqs" THEN I(50 * (j - 1)) ELSE I(j - 1 - (n \div 2))], NoSym)
FieldX(i) ==
  LET L == P(i, 1, LayoutsX) spec == L[1] \in {"freqs", "wavenumber"}
      axes == [d \in 1..Len(L) |-> IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 4)
                 ELSE IF spec /\ L[d] # "x" THEN LinesX(i, 100 * d, L[d])
                 ELSE IF L[d] \in {"time", "angle"} /\ D(i, 20 + d, 2) = 0 THEN AxisF(i, 100 * d, L[d], TRUE, 4)
                 ELSE IF L[d] \in {"x", "y", "z"} /\ D(i, 30 + d, 4) = 0 THEN UnevenD(i, 100 * d, L[d], 1, 4)
                 ELSE AxisD(i, 100 * d, L[d], 1, IF Len(L) = 4 THEN 2 ELSE 4, IF Len(L) > 2 THEN << NoSym, NoSym, Per(2) >> ELSE Syms)]
      n == NVals(axes)
  IN [FieldOf(i, axes) EXCEPT
        !.cls = IF spec THEN "DataFreq" ELSE @,
        !.val = IF spec THEN [j \in 1..n |-> Complex(ValOf(i, j), ValOf(i + 1, j))] ELSE @,
        !.unit = P(i, 5, <<"T", "N", "W">>), !.sym = P(i, 6, <<"X", "B_r">>), !.name = P(i, 7, <<"Field", "Radial flux">>),
        !.norms = IF D(i, 8, 2) = 0 THEN <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> P(i, 9, << <<1, 50000>>, I(2) >>), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
UnitOf(i, b, a) ==
  IF D(i, b, 3) # 0 THEN ""
  ELSE CASE a.name = "time" -> "ms" [] a.name = "angle" -> "°" [] a.name \in {"x", "y", "z"} -> "mm" [] OTHER -> ""
ReqX(i, b, o, d) ==
  LET a == o.axes[d] u == UnitOf(i, b + 9, a) IN
  IF a.comp THEN (IF D(i, b, 5) = 0 THEN Op(a.name, P(i, b + 1, <<"sum", "mean", "max">>)) ELSE CompSelD(i, b + 2, a))
  ELSE IF a.name \in {"time", "angle"} /\ D(i, b, 4) = 0 /\ a.x[1] = Zero THEN
    CASE D(i, b + 1, 3) = 0 -> Gt(SpectralOf(a.name), <<-1, 64>>)
      [] OTHER -> Whole(SpectralOf(a.name))
  ELSE CASE D(i, b + 1, 8) \in {0, 1, 2} -> InUnit(Whole(a.name), u)
         [] D(i, b + 1, 8) = 3 -> Op(a.name, P(i, b + 2, <<"sum", "mean", "max">>))
         [] D(i, b + 1, 8) = 4 -> Idx(a.name, <<D(i, b + 2, NStored(a))>>)
         [] OTHER -> SelD(i, b + 2, a, u)
ReqsX(i, b, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, b + 90 + d, 8) # 0)
  IN [j \in 1..Len(S) |-> ReqX(i, b + 20 * S[j], o, S[j])]
\* one curve: the first request has all the samples, the others one
FlatX(i, b, o) ==
  LET d0 == 1 + D(i, b, Len(o.axes)) a0 == o.axes[d0]
      others == SelectIdx(Len(o.axes), LAMBDA d : d # d0 /\ D(i, b + 90 + d, 4) # 0)
      first == IF a0.comp THEN Whole(a0.name)
               ELSE IF a0.name \in {"time", "angle"} /\ a0.x[1] = Zero /\ D(i, b + 1, 2) = 0 THEN Whole(SpectralOf(a0.name))
               ELSE InUnit(Whole(a0.name), UnitOf(i, b + 2, a0))
  IN <<first>> \o [j \in 1..Len(others) |->
        LET a == o.axes[others[j]] IN IF D(i, b + 3 + j, 3) = 0 THEN Op(a.name, "sum")
                                      ELSE IF a.comp \/ D(i, b + 3 + j, 3) = 1 THEN Idx(a.name, <<D(i, b + 8 + j, NStored(a))>>)
                                      ELSE Val(a.name, a.x[1 + D(i, b + 8 + j, NStored(a))])]
FitE(o, r) == [j \in 1..Len(r) |-> IF \E d \in 1..Len(o.axes) : o.axes[d].name = r[j].ax
                 THEN LET a == o.axes[CHOOSE d \in 1..Len(o.axes) : o.axes[d].name = r[j].ax] IN IF r[j].f = "val" /\ r[j].u = "" THEN WithE(r[j], a.e) ELSE r[j] ELSE r[j]]
CallX(i, k, o) ==
  LET b == 2000 + 200 * k flat == D(i, b, 4) = 0 IN
  [m |-> "export", o |-> 1, flat |-> flat, multi |-> D(i, b + 1, 3) # 0, file |-> D(i, b + 2, 2) = 0,
   reqs |-> TLCEval(FitE(o, IF flat THEN FlatX(i, b + 5, o) ELSE ReqsX(i, b + 5, o))),
   u |-> P(i, b + 3, << "", "", IF o.unit = "T" THEN "mT" ELSE "SI", "dB", IF flat THEN "" ELSE "->" >>)]
K == Budget(600, 6000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET o == TLCEval(FieldX(i)) r == TLCEval(Run(<<o>>, TLCEval([k \in 1..3 |-> CallX(i, k, o)]))) IN
  /\ heap' = r.heap /\ log' = r.log /\ cid' = i
  /\ Write([id |-> i, objs |-> <<o>>, steps |-> r.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

SumInt(s) == LET RECURSIVE T(_) T(j) == IF j = 0 THEN 0 ELSE s[j] + T(j - 1) IN T(Len(s))
\* the cells of all files are the values of the answer, each once
AllCells ==
  \A k \in 1..Len(log) : log[k].ans.k = "ok" =>
    LET a == log[k].ans c == log[k].call
        n == Prod([q \in 1..Len(a.axes) |-> IF a.axes[q].t = "lab" THEN Len(a.axes[q].lab) ELSE Len(a.axes[q].x)])
    IN /\ Len(a.axes) \in 1..3
       /\ n = SumInt([q \in 1..Len(a.files) |-> Len(a.files[q].v)])
       /\ \A q \in 1..Len(a.files) : Len(a.files[q].v) = a.files[q].sh[1] * a.files[q].sh[2]
=============================================================================

------------------------------- MODULE ScenF --------------------------------
(* Drawn fields that have a spectrum, and drawn spectra.                     *)
EXTENDS Scen

LayoutsF == << <<"time">>, <<"angle">>, <<"time">>, <<"angle">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "phase">>, <<"z", "angle">>, <<"angle", "x">>, <<"time", "angle", "z">>, <<"x", "angle", "time">> >>
\* regular axis from zero; for real fields one period of time has an even number of samples
AxisF(i, b, name, real, maxN) ==
  LET syms == << NoSym, NoSym, Per(2), Per(3), APer(2), APer(4) >>
      sym == P(i, b + 1, syms)
      n0 == 1 + D(i, b, maxN)
      n == IF real /\ name = "time" /\ sym.t # "aper" THEN 2 * (1 + D(i, b, Max2(1, maxN \div 2))) ELSE n0
      h == P(i, b + 2, << One, <<1, 2>>, <<1, 8>>, I(2) >>)
      a == IF name = "angle" THEN MkAxis(name, "rad", 1, GridX(Zero, Q(2, n * sym.n), n), sym)
           ELSE IF name = "time" THEN MkAxis(name, "s", 0, GridX(Zero, h, n), sym)
           ELSE AxisD(i, b, name, 1, 3, << NoSym, NoSym, Per(2), APer(2) >>)
      a1 == IF n = 1 /\ sym.t # "none" /\ name \in {"time", "angle"}
            THEN [a EXCEPT !.delta = IF name = "angle" THEN Q(2, sym.n) ELSE h] ELSE a
      a2 == AsLin(a1, D(i, b + 4, 7))
  IN IF name \in {"time", "angle"} /\ D(i, b + 5, 4) = 0
     THEN [a2 EXCEPT !.norms = <<[name |-> "elec", k |-> "ref", u |-> "SI", p |-> I(3), q |-> Zero, e |-> 0, vec |-> <<>>]>>]
     ELSE a2
FieldF(i) ==
  LET L == P(i, 1, LayoutsF) real == D(i, 3, 3) # 0
      axes == [d \in 1..Len(L) |-> IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 3)
                 ELSE AxisF(i, 100 * d, L[d], real, IF Len(L) = 3 THEN 2 ELSE IF Len(L) = 2 THEN 4 ELSE 8)]
      n == NVals(axes)
  IN [MkField("DataTime", axes, IF real THEN Vals(i, n) ELSE [j \in 1..n |-> Complex(ValOf(i, j), ValOf(i + 1, j))])
        EXCEPT !.real = real, !.name = P(i, 4, <<"Field", "Radial flux">>), !.sym = P(i, 6, <<"X", "B_r">>),
               !.unit = P(i, 7, <<"T", "dimless", "m/s">>),
               !.norms = IF D(i, 8, 3) = 0
                         THEN <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> I(4), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
\* a spectrum to start from: complex two-sided, or one-sided in frequency with real ends
SpecF(i) ==
  LET real == D(i, 3, 2) = 0 /\ TRUE
      M == IF real THEN 2 + D(i, 5, 5) ELSE 1 + D(i, 5, 8)
      name == IF real THEN "freqs" ELSE P(i, 9, <<"freqs", "wavenumber">>)
      turns == IF M = 1 THEN 1 ELSE P(i, 11, <<1, 1, 2, 3>>)
      df == IF name = "wavenumber" THEN I(turns) ELSE P(i, 10, << One, I(50), <<1, 4>> >>)
      x == IF real THEN GridX(Zero, df, M) ELSE GridX(RMul(df, I(-(M \div 2))), df, M)
      a == [MkAxis(name, IF name = "freqs" THEN "Hz" ELSE "dimless", 0, x, NoSym) EXCEPT !.turns = turns]
      z == [MkAxis("z", "m", 0, GridX(Zero, One, 2), NoSym) EXCEPT !.name = "z"]
      axes == IF D(i, 12, 3) = 0 THEN <<z, a>> ELSE IF D(i, 12, 3) = 1 THEN <<a, z>> ELSE <<a>>
      n == NVals(axes)
      line(j) == IF Len(axes) = 1 \/ axes[1].name = "z" THEN ((j - 1) % M) + 1 ELSE ((j - 1) \div 2) + 1
  IN [MkField("DataFreq", axes, [j \in 1..n |-> Complex(ValOf(i, j), IF real /\ line(j) \in {1, M} THEN Zero ELSE ValOf(i + 1, j))])
        EXCEPT !.real = real]
=============================================================================

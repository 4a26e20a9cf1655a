------------------------------- MODULE MC_C24 -------------------------------
(* Magnitude, phase, levels and harmonics of fields in time and space and of *)
(* spectra, in any unit and with any reference.                              *)
EXTENDS ScenF

\* spectra with any lines, one or two spectral axes, one other axis
LinesM(i, b, name) ==
  LET n == 1 + D(i, b, 5) df == P(i, b + 1, << I(50), I(100), <<25, 2>>, I(1000) >>)
      x0 == P(i, b + 2, << Zero, Zero, I(1), I(2) >>)
  IN IF name = "freqs" THEN [MkAxis(name, "Hz", 0, [j \in 1..n |-> RMul(df, RAdd(x0, IF D(i, b + 3, 3) = 0 THEN Q(j * j + j - 2, 2) ELSE I(j - 1)))], NoSym)
                               EXCEPT !.norms = IF D(i, b + 4, 2) = 0 THEN <<[name |-> "elec", k |-> "ref", u |-> "SI", p |-> I(50), q |-> Zero, e |-> 0, vec |-> <<>>]>> ELSE <<>>]
     ELSE MkAxis(name, "dimless", 0, [j \in 1..n |-> I(j - 1 - (n \div 2))], NoSym)
LayoutsM == << <<"freqs">>, <<"freqs">>, <<"wavenumber">>, <<"freqs", "wavenumber">>, <<"wavenumber", "freqs">>, <<"x", "freqs">>, <<"freqs", "phase">>,
               <<"freqs", "x">>, <<"wavenumber", "z">>, <<"x", "freqs", "wavenumber">>, <<"phase", "wavenumber", "freqs">> >>
NonZero(r) == IF r = Zero THEN I(10) ELSE r
SpecM(i) ==
  LET L == P(i, 1, LayoutsM) cx == D(i, 3, 3) # 0
      axes == [d \in 1..Len(L) |-> IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 3)
                 ELSE IF L[d] \in {"freqs", "wavenumber"} THEN LinesM(i, 100 * d, L[d])
                 ELSE AxisD(i, 100 * d, L[d], 1, 3, << NoSym, NoSym, Per(2), APer(2) >>)]
      n == NVals(axes) clear == D(i, 9, 2) = 0
  IN [MkField("DataFreq", axes, [j \in 1..n |-> LET r == IF clear THEN NonZero(ValOf(i, j)) ELSE ValOf(i, j) IN
               IF cx THEN Complex(r, ValOf(i + 1, j)) ELSE r])
        EXCEPT !.real = D(i, 13, 3) # 0]
RefD(i) == [name |-> "ref", k |-> "ref", u |-> "SI", p |-> P(i, 14, << <<1, 50000>>, I(3), One, <<1, 50000>>, <<1, 1000>> >>), q |-> Zero, e |-> 0, vec |-> <<>>]
FieldM(i) ==
  LET o == IF D(i, 15, 2) = 0 THEN SpecM(i) ELSE FieldF(i)
  IN [o EXCEPT !.unit = P(i, 16, <<"T", "Pa", "W", "kW", "mT", "dimless", "m/s">>),
               !.norms = CASE D(i, 17, 4) = 0 -> <<>>
                           [] D(i, 17, 4) = 1 -> <<RefD(i), [name |-> "twice", k |-> "affine", u |-> "SI", p |-> I(2), q |-> One, e |-> 0, vec |-> <<>>]>>
                           [] OTHER -> <<RefD(i)>>]
Unders == {"freqs", "wavenumber"}
\* request along one axis: direct or spectral
AxisReq(i, b, o, d) ==
  LET a == o.axes[d] real == o.real
      spec == IF a.name \in {"time", "angle"} THEN TLCEval(SpectralAxis(a, real)) ELSE a
      x == IF a.comp THEN <<>> ELSE spec.x n == Len(x)
      Ops == << "sum", "mean", "max", "min", "rms", "rss", "sum", "rss" >>
  IN IF a.comp THEN (IF D(i, b, 4) = 0 THEN Op(a.name, P(i, b + 1, Ops)) ELSE CompSelD(i, b + 2, a))
     ELSE IF a.name \in Unders \/ (a.name \in {"time", "angle"} /\ D(i, b, 5) # 0) THEN
       CASE D(i, b + 1, 10) \in {0, 1, 2} -> Whole(spec.name)
         [] D(i, b + 1, 10) = 3 -> Idx(spec.name, <<D(i, b + 2, n)>>)
         [] D(i, b + 1, 10) = 4 -> Idx(spec.name, <<D(i, b + 2, n), D(i, b + 3, n)>>)
         [] D(i, b + 1, 10) = 5 -> Gt(spec.name, RSub(x[1 + D(i, b + 2, n)], <<1, 16>>))
         [] D(i, b + 1, 10) = 6 -> IF n > 1 /\ D(i, b + 2, 2) = 0 THEN Ivl(spec.name, RSub(x[1], <<1, 16>>), RAdd(x[2], <<1, 16>>)) ELSE Whole(spec.name)
         [] D(i, b + 1, 10) = 7 /\ spec.name = "freqs" ->
              InUnit(IF D(i, b + 2, 2) = 0 THEN Whole("freqs") ELSE Idx("freqs", <<D(i, b + 3, n), D(i, b + 4, n)>>),
                     IF a.name = "freqs" /\ a.norms # <<>> THEN "elec" ELSE "kHz")
         [] OTHER -> Op(spec.name, P(i, b + 2, Ops))
     ELSE IF D(i, b + 1, 5) = 0 THEN Op(a.name, P(i, b + 2, Ops))
     ELSE SelD(i, b + 3, a, "")
ReqsM(i, b, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, b + 90 + d, 12) # 0)
  IN Perm(i, b + 95, [j \in 1..Len(S) |-> AxisReq(i, b + 20 * S[j], o, S[j])])
\* for harmonics: lines asked along spectral axes, one sample along the others
HarmReq(i, b, o) ==
  [d \in 1..Len(o.axes) |->
     LET a == o.axes[d] r == AxisReq(i, b + 20 * d, o, d) IN
     IF a.name \in {"time", "angle"} \cup Unders
     THEN (IF r.f \in {"op"} \/ r.ax \in {"time", "angle"} THEN Whole(IF a.name \in Unders THEN a.name ELSE SpectralOf(a.name)) ELSE r)
     ELSE IF D(i, b + 20 * d + 15, 3) = 0 THEN Op(a.name, "sum") ELSE Idx(a.name, <<0>>)]
UnitM(i, b, o) ==
  P(i, b, << "", "dB", "dBA", "dB", "dBA", IF o.unit = "T" THEN "mT" ELSE IF o.unit = "mT" THEN "T" ELSE IF o.unit = "kW" THEN "W" ELSE "SI",
             IF Len(o.norms) = 2 THEN "twice" ELSE "", IF Len(o.norms) > 0 THEN "ref" ELSE "", "->" >>)
CallM(i, k, o) ==
  LET b == 2000 + 200 * k c == D(i, b, 10) u == UnitM(i, b + 1, o) IN
  CASE c < 5 -> [m |-> "get_magnitude_along", o |-> 1, reqs |-> ReqsM(i, b + 5, o), u |-> u, sq |-> D(i, b + 2, 4) # 0]
    [] c \in {5, 6} -> [m |-> "get_phase_along", o |-> 1, reqs |-> ReqsM(i, b + 5, o), u |-> "", sq |-> TRUE, deg |-> D(i, b + 2, 2) = 0]
    [] c = 7 -> [Get(1, ReqsM(i, b + 5, o)) EXCEPT !.u = P(i, b + 3, <<"dB", "dBA">>), !.sq = D(i, b + 2, 2) = 0]
    [] OTHER -> [m |-> "get_harmonics", o |-> 1, reqs |-> Perm(i, b + 195, HarmReq(i, b + 5, o)), u |-> u, n |-> 1 + D(i, b + 2, 6)]
K == Budget(900, 9000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} : LET o == TLCEval(FieldM(i)) IN CallN(i, <<o>>, TLCEval([k \in 1..4 |-> CallM(i, k, o)]))
Spec == Init /\ [][Next]_vars

\* a magnitude without reductions is the modulus of the plain answer
IsMod(m, y) == SameNum(m, Modulus0(y)) \/ ~IsNum(m)
ModulusOfAnswer ==
  \A k \in 1..Len(log) :
    LET c == log[k].call a == log[k].ans IN
    (c.m = "get_magnitude_along" /\ a.k = "ok" /\ ~IsLevel(c.u) /\ FieldPlain(heap[1], c.u) /\ \A j \in 1..Len(c.reqs) : c.reqs[j].f # "op") =>
      LET b == Answer(heap[1], c.reqs, "", c.sq) IN
      b.k = "ok" /\ b.sh = a.sh /\ b.axes = a.axes /\ \A j \in 1..Len(a.v) : IsMod(a.v[j], b.v[j])
\* every line of a harmonic table has coordinates of its own, unless an index is asked twice
HarmonicTable ==
  \A k \in 1..Len(log) : (log[k].call.m = "get_harmonics" /\ log[k].ans.k = "ok" /\ \A j \in 1..Len(log[k].call.reqs) : Len(log[k].call.reqs[j].ns) < 2) =>
     Cardinality({log[k].ans.tab[j].x : j \in 1..Len(log[k].ans.tab)}) = Len(log[k].ans.tab)
=============================================================================

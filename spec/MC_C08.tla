------------------------------- MODULE MC_C08 -------------------------------
(* Spectra at arbitrary instants and angles, signals at arbitrary lines.     *)
EXTENDS ScenF

Times(s, l) == [j \in 1..Len(l) |-> RMul(s, l[j])]
Base(i) == P(i, 20, << One, One, I(50), <<1, 4>> >>)
(* ------------------------------- spectra ------------------------------- *)
FreqsH(i, real) ==
  LET x == IF real THEN P(i, 21, << <<Zero, One, I(2)>>, <<Zero, One, I(2), I(3), I(4)>>, <<One, I(3)>>, <<Zero, <<5, 2>>, I(3)>>, <<<<1, 2>>>>, <<Zero, One, I(3), I(4)>>,
                                     <<I(2), I(4), I(6)>>, <<Zero>>, <<Zero, I(2)>>, <<Zero, <<1, 2>>, One, <<3, 2>>>> >>)
           ELSE P(i, 22, << <<I(-1), Zero, One>>, <<I(-2), I(-1), Zero, One>>, <<I(-3), <<1, 2>>, I(2)>>, <<<<-5, 2>>, I(-1)>>, <<One, I(2)>>, <<I(-2), Zero, I(2)>>,
                            <<Zero, One, I(2), I(3)>>, <<I(3)>>, <<I(-4), I(-2), Zero, I(2)>> >>)
      a == MkAxis("freqs", "Hz", 0, Times(Base(i), x), NoSym)
  IN IF D(i, 26, 3) = 0 /\ Len(x) > 1 /\ Regular(a, real) THEN [a EXCEPT !.turns = 2] ELSE a
Wave0(i, half) ==
  MkAxis("wavenumber", "dimless", 0, IF half THEN P(i, 23, << <<Zero, One, I(2)>>, <<One, I(3)>>, <<Zero, I(2), I(5)>>, <<I(2)>>, <<Zero, I(3)>> >>)
         ELSE P(i, 23, << <<I(-1), Zero, One>>, <<I(-2), I(-1), Zero, One>>, <<I(-3), One, I(2)>>, <<I(-2), I(3)>>, <<I(-4), I(-2), Zero, I(2)>>, <<I(-1)>> >>), NoSym)
\* lines at multiples of a number of periods
WaveH(i, half) ==
  LET a == Wave0(i, half) IN
  IF D(i, 27, 2) = 0 /\ Len(a.x) > 1 /\ Regular(a, half) THEN [a EXCEPT !.turns = RSub(a.x[2], a.x[1])[1]] ELSE a
ZH(i) == MkAxis("z", "m", 0, <<Zero, One>>, NoSym)
LayoutsH == << <<"freqs">>, <<"freqs">>, <<"wavenumber">>, <<"freqs", "wavenumber">>, <<"wavenumber", "freqs">>, <<"z", "freqs">>, <<"freqs", "z">>, <<"z", "wavenumber">>, <<"freqs", "wavenumber", "z">> >>
Whole1(a) == a.x[1] = Zero /\ UniformX(a.x)     \* its last line may be the one at half the sampling frequency
SpectrumH(i) ==
  LET L == P(i, 1, LayoutsH) real == D(i, 2, 2) = 0
      axes == TLCEval([d \in 1..Len(L) |-> CASE L[d] = "freqs" -> FreqsH(i, real) [] L[d] = "wavenumber" -> WaveH(i, real /\ Len(SelectSeq(L, LAMBDA n : n = "freqs")) = 0) [] OTHER -> ZH(i)])
      sh == [d \in 1..Len(axes) |-> Len(axes[d].x)]
      top(j) == LET ix == Unflat(sh, j) IN \E d \in 1..Len(L) : real /\ L[d] = "freqs" /\ Len(axes[d].x) > 1 /\ Whole1(axes[d]) /\ ix[d] = sh[d]
  IN [MkField("DataFreq", axes, TLCEval([j \in 1..NVals(axes) |-> IF top(j) THEN Zero ELSE Complex(ValOf(i, j), ValOf(i + 1, j))])) EXCEPT !.real = real]
Instants(i) == Times(RInv(Base(i)), P(i, 24, << <<Zero, <<1, 4>>, <<1, 2>>, <<3, 4>>>>, <<Zero, <<1, 8>>, <<1, 2>>>>, <<<<1, 12>>, <<1, 3>>, <<1, 2>>>>, <<Zero, <<1, 6>>>>,
                 <<<<1, 4>>, <<1, 2>>, <<5, 4>>>>, <<<<-1, 4>>, Zero, <<1, 4>>>>, <<<<1, 2>>, <<1, 4>>, <<2, 3>>>>, <<Zero, <<1, 3>>, <<2, 3>>>>, <<Zero, One, I(2)>>,
                 <<Zero, <<1, 2>>>>, <<Zero, <<1, 8>>, <<1, 4>>, <<3, 8>>, <<1, 2>>, <<5, 8>>, <<3, 4>>, <<7, 8>>>>, <<Zero, <<1, 4>>, <<1, 2>>>>, <<<<1, 4>>, <<1, 4>>, <<1, 3>>>> >>))
Angles(i) == P(i, 25, << <<Zero, <<1, 2>>, One, <<3, 2>>>>, <<Zero, <<1, 3>>, One>>, <<<<1, 4>>, <<1, 2>>>>, <<<<-1, 2>>, <<1, 6>>, I(2)>>, <<Zero, <<2, 3>>, <<4, 3>>>>,
                         <<Zero, One>>, <<Zero, <<1, 4>>, <<1, 2>>>>, <<One, <<1, 3>>, <<1, 4>>>> >>)
\* lists of two values are intervals
AskList(i, b, ax, x, e) == WithE(IF Len(x) > 2 /\ Increasing(x) /\ D(i, b, 3) = 0 THEN ValList(ax, x) ELSE Data(ax, x), e)
AskH(i, o, d) ==
  LET a == o.axes[d] k == D(i, 40 + d, 5) IN
  IF a.name = "z" THEN Whole("z")
  ELSE IF k = 0 /\ ~o.real THEN Whole(a.name)
  ELSE IF k = 1 /\ Len(a.x) > 1 /\ Regular(a, o.real) THEN Whole(DirectOf(a.name))
  ELSE IF a.name = "freqs" THEN AskList(i, 45 + d, "time", Instants(i), 0) ELSE AskList(i, 45 + d, "angle", Angles(i), 1)
(* ------------------------------- signals ------------------------------- *)
TimeH(i) == LET h == P(i, 50, << One, <<1, 4>>, <<1, 100>> >>) n == 2 + D(i, 51, 5) IN
            IF D(i, 52, 4) = 0 THEN MkAxis("time", "s", 0, P(i, 53, << <<Zero, <<1, 4>>, <<1, 2>>, <<5, 4>>>>, <<Zero, <<1, 2>>, <<2, 3>>>>, <<Zero, <<1, 8>>, <<1, 4>>, <<1, 2>>>> >>), NoSym)
            ELSE AsLin(MkAxis("time", "s", 0, GridX(Zero, h, n), NoSym), D(i, 54, 7))
AngleH(i) == LET n == 2 + D(i, 55, 5) IN
             IF D(i, 56, 4) = 0 THEN MkAxis("angle", "rad", 1, P(i, 57, << <<Zero, <<1, 4>>, <<1, 2>>, <<5, 4>>>>, <<Zero, <<1, 2>>, <<2, 3>>>> >>), NoSym)
             ELSE AsLin(MkAxis("angle", "rad", 1, GridX(Zero, Q(2, n), n), NoSym), D(i, 58, 7))
LayoutsS == << <<"time">>, <<"time">>, <<"angle">>, <<"time", "angle">>, <<"angle", "time">>, <<"z", "time">>, <<"time", "z">>, <<"angle", "z">>, <<"time", "angle", "z">> >>
SignalH(i) ==
  LET L == P(i, 1, LayoutsS) real == D(i, 2, 2) = 0
      axes == TLCEval([d \in 1..Len(L) |-> CASE L[d] = "time" -> TimeH(i) [] L[d] = "angle" -> AngleH(i) [] OTHER -> ZH(i)])
  IN [MkField("DataTime", axes, TLCEval([j \in 1..NVals(axes) |-> IF real THEN ValOf(i, j) ELSE Complex(ValOf(i, j), ValOf(i + 1, j))])) EXCEPT !.real = real]
Even(a) == a.x[1] = Zero /\ UniformX(a.x)
AskS(i, o, d) ==
  LET a == o.axes[d] k == D(i, 40 + d, 5)
      u == IF a.name = "time" THEN RInv(RMul(I(Len(a.x)), RSub(a.x[2], a.x[1]))) ELSE One
      x == Times(u, P(i, 60 + d, << <<Zero, One, <<5, 2>>>>, <<<<1, 2>>, <<3, 2>>>>, <<Zero, <<1, 3>>, One>>, <<Zero, <<1, 2>>>>, <<<<1, 4>>, I(2)>>, <<<<-1, 2>>, Zero, One>>, <<I(-1), <<1, 3>>>>,
                                    <<One, <<3, 2>>, I(2), <<5, 2>>>>, <<<<3, 2>>, <<1, 2>>, Zero>>, <<Zero, One>> >>))
  IN IF a.name = "z" THEN Whole("z")
     ELSE IF k = 0 THEN Whole(a.name)
     ELSE IF k = 1 /\ Even(a) THEN Whole(SpectralOf(a.name))
     ELSE AskList(i, 45 + d, SpectralOf(a.name), x, 0)
E_(o, rs) == [m |-> "evaluate", o |-> o, reqs |-> rs, u |-> "", sq |-> TRUE]
K == Budget(900, 9000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET o == TLCEval(IF D(i, 3, 2) = 0 THEN SpectrumH(i) ELSE SignalH(i))
      rs == TLCEval([d \in 1..Len(o.axes) |-> IF o.cls = "DataFreq" THEN AskH(i, o, d) ELSE AskS(i, o, d)])
  IN CallN(i, <<o>>, <<E_(1, Perm(i, 70, rs))>>)
Spec == Init /\ [][Next]_vars
\* lines and samples on regular coordinates: the transform
OnGrid == log # <<>> =>
  LET o == heap[1] all == [d \in 1..Len(o.axes) |-> Whole(IF o.axes[d].name = "z" THEN "z" ELSE SpectralOf(o.axes[d].name))]
  IN (o.cls = "DataTime" /\ \A d \in 1..Len(o.axes) : o.axes[d].name = "z" \/ Even(o.axes[d])) =>
     LET A == TLCEval(HarmAnswer(o, all, FALSE)) B == TLCEval(StoredArr(FreqField(o)))
     IN A.sh = B.sh /\ \A j \in 1..Len(A.v) : (InPhi(A.v[j]) /\ InPhi(B.v[j])) => CEq(A.v[j], B.v[j])
=============================================================================

-------------------------------- MODULE Mag ---------------------------------
(***************************************************************************)
(* Magnitudes, phases, levels and harmonics of a field.                    *)
(* Reductions act on the magnitudes of the whole array.                    *)
(***************************************************************************)
EXTENDS Extract

InPhi(z) == IsRat(z) \/ (IsCyc(z) /\ z[2] <= Len(Phi))
Modulus0(z) == IF IsCyc(z) /\ InPhi(z) /\ CIsZero(z) THEN Zero ELSE Modulus(z)

\* magnitudes in the unit of the field, [k, A, D, P]
MagOn(o, reqs) ==
  LET P == TLCEval(Plans(o, reqs)) IN
  IF \E d \in 1..Len(P) : P[d].k = "err" THEN Bad("err")
  ELSE IF \E d \in 1..Len(P) : P[d].k \in {"unspec", "keep", "nan"} THEN Bad("unspec")
  ELSE [k |-> "ok", A |-> OpAll(EntryMap(SelAll(FullArr(o), o, P, 1), Modulus0), o, P, 1), P |-> P, f |-> o]
\* the field a request is answered from
Source(o, reqs) ==
  IF ~AsksDirect(o, reqs) THEN [k |-> "ok", f |-> o]
  ELSE IF Answer(o, reqs, "", TRUE).k = "unspec" THEN Bad("unspec") ELSE [k |-> "ok", f |-> TimeField(o)]
Mag(o, reqs) == LET s == TLCEval(Source(o, reqs)) IN IF s.k # "ok" THEN s ELSE MagOn(s.f, reqs)
Rendered(m, reqs, A, squeeze) ==
  LET B == IF squeeze THEN Squeeze(A) ELSE A D == Requested(m.f, reqs)
  IN [k |-> "ok", axes |-> [j \in 1..Len(D) |-> AxisOut(m.f, D[j], ReqOn(m.f, D[j], reqs), m.P[D[j]])], sh |-> B.sh, v |-> B.v, other |-> Others(m.f, reqs)]

(* ------------------------------- levels --------------------------------- *)
LevelRef(o) == LET S == {k \in 1..Len(o.norms) : o.norms[k].name = "ref"} IN
  IF S = {} THEN One ELSE o.norms[CHOOSE k \in S : TRUE].p
IsNil(y) == y = Zero \/ (~IsNum(y) /\ y[1] = "min" /\ \E j \in 1..Len(y[2]) : y[2][j] = Zero)
\* exact: no rounding before the logarithm, so zero is known to be zero
Level(o, y, exact) ==
  LET r == LevelRef(o) k == IF Convertible(o.unit, "W") THEN 10 ELSE 20
      l == Term("mul", <<I(k), Term("log10", <<Div(y, r)>>)>>)
  IN IF r # One THEN (IF IsNil(y) THEN Zero ELSE Term("max", <<Zero, l>>))
     ELSE IF IsNil(y) THEN (IF exact THEN Zero ELSE Free) ELSE l
Picked(p) == p.pre = "none" /\ (p.k = "sel" => \A j \in 1..Len(p.w) : Len(p.w[j]) = 1)
Exact(m) == \A d \in 1..Len(m.P) : Picked(m.P[d])
AWeight(f) == IF f = Zero THEN I(-100) ELSE Term("aweight", <<f>>)
Levels(m, exact) == EntryMap(m.A, LAMBDA y : Level(m.f, y, exact))
\* position of the frequency axis in the request, its frequencies in Hz
FreqAxis(m, reqs) == {d \in 1..Len(m.f.axes) : ReqOn(m.f, d, reqs).ax = "freqs" /\ ReqsFor(m.f, d, reqs) # {} /\ m.P[d].k = "sel"}
Hertz(m, d) ==   \* kept lines
  LET o == m.f a == o.axes[d] x == IF IsSpectral(a) THEN a.x ELSE SpectralAxis(a, o.real).x
  IN [j \in 1..Len(m.P[d].w) |-> x[m.P[d].w[j][1][1]]]
OneEach(m, d) == \A j \in 1..Len(m.P[d].w) : Len(m.P[d].w[j]) = 1
Weighted(m, d, L) ==
  LET h == Hertz(m, d) IN LineMap(L, d, LAMBDA l : [j \in 1..Len(l) |-> Add(l[j], AWeight(h[j]))])
\* sum of levels
Total(l) == <<Term("mul", <<I(10), Term("log10", <<SumSeq([j \in 1..Len(l) |-> Term("pow", <<I(10), Mul(<<1, 10>>, l[j])>>)])>>)>>)>>
TotalIsClear(o, m) ==     \* levels well above zero
  /\ \A j \in 1..Len(o.val) : o.val[j] # Zero /\ o.val[j] # Complex(Zero, Zero)
  /\ RLe(LevelRef(o), <<1, 10000>>)
  /\ \A d \in 1..Len(m.P) : m.P[d].k = "sel" => OneEach(m, d)
FreqSum(o, reqs) == {d \in 1..Len(o.axes) : /\ o.axes[d].name = "freqs" /\ ReqsFor(o, d, reqs) # {}
                                            /\ ReqOn(o, d, reqs).f = "op" /\ ReqOn(o, d, reqs).op \in {"sum", "rss"}}
WholeFreqs(reqs) == [j \in 1..Len(reqs) |-> IF reqs[j].ax = "freqs" THEN Whole("freqs") ELSE reqs[j]]
\* levels L along the frequency axis d, then their sum (the axes reduced before are gone)
Opened(o, d, reqs, m, L, squeeze) ==
  LET a == Rendered(m, reqs, LineMap(L, d, Total), squeeze) r == ReqOn(o, d, reqs)
      named == [j \in 1..Len(a.axes) |-> IF a.axes[j].n = "freqs" THEN [a.axes[j] EXCEPT !.t = "op", !.op = r.op, !.e = 0, !.x = <<>>] ELSE a.axes[j]]
      reduced == \E q \in 1..Len(m.P) : m.P[q].k = "red"
  IN IF reduced /\ ~squeeze THEN Bad("unspec")
     ELSE [a EXCEPT !.axes = SelectSeq(named, LAMBDA x : x.n = "freqs" \/ x.t # "op")]
LevelOn(o, reqs, u, squeeze) ==
  IF FreqSum(o, reqs) # {} THEN
    LET d == CHOOSE d \in FreqSum(o, reqs) : TRUE
        m == TLCEval(Mag(o, WholeFreqs(reqs)))
    IN IF m.k # "ok" THEN m
       ELSE IF AsksDirect(o, reqs) \/ ~TotalIsClear(o, m) \/ ReqOn(o, d, reqs).u # "" THEN Bad("unspec")
       ELSE IF u = "dBA" /\ \A j \in 1..Len(o.axes[d].x) : RLt(o.axes[d].x[j], I(50)) THEN Bad("unspec")
       ELSE LET L == Levels(m, TRUE) IN Opened(o, d, reqs, m, IF u = "dBA" THEN Weighted(m, d, L) ELSE L, squeeze)
  ELSE LET m == TLCEval(Mag(o, reqs)) IN
    IF m.k # "ok" THEN m
    \* sums of levels over time, other operations over frequencies in dBA: not stated
    ELSE IF \E d \in 1..Len(m.P) : m.P[d].k = "red" /\ ReqOn(m.f, d, reqs).ax \in {"time", "freqs"}
                                    /\ (u = "dBA" \/ m.P[d].op \in {"sum", "rss"}) THEN Bad("unspec")
    ELSE IF u = "dB" THEN Rendered(m, reqs, Levels(m, Exact(m) /\ m.f = o), squeeze)
    ELSE IF FreqAxis(m, reqs) = {} THEN Bad("err")
    ELSE LET d == CHOOSE d \in FreqAxis(m, reqs) : TRUE
         IN IF ~OneEach(m, d) THEN Bad("unspec")
            ELSE Rendered(m, reqs, Weighted(m, d, Levels(m, Exact(m) /\ m.f = o)), squeeze)
IsLevel(u) == u \in {"dB", "dBA"}
MagAnswer(o, reqs, u, squeeze) ==
  IF IsLevel(u) THEN LevelOn(o, reqs, u, squeeze)
  ELSE LET m == TLCEval(Mag(o, reqs)) IN
    IF m.k # "ok" THEN m ELSE IF FieldCan(o, u) # "ok" THEN Bad(FieldCan(o, u))
    ELSE Rendered(m, reqs, FieldIn(o, m.A, u), squeeze)
\* levels of plain answers
PlainLevelIn(o, reqs, u, squeeze) ==
  LET a == Answer(o, reqs, "", FALSE) IN
  IF a.k # "ok" THEN a
  ELSE IF \E j \in 1..Len(a.v) : ~IsNum(a.v[j]) /\ (a.v[j] = NaN \/ a.v[j] = Free) THEN Bad("unspec")
  ELSE LET P == TLCEval(Plans(o, reqs))
           ex == ~AsksDirect(o, reqs) /\ \A d \in 1..Len(P) : Picked(P[d]) /\ (P[d].k = "red" => P[d].op \in {"sum", "max", "min"})
           B == EntryMap([sh |-> a.sh, v |-> a.v], LAMBDA y : Level(o, Modulus0(y), ex))
           m == [f |-> o, P |-> P]
           F == IF AsksDirect(o, reqs) THEN {} ELSE FreqAxis(m, reqs)
           d == CHOOSE d \in F : TRUE
           out(A) == LET C == IF squeeze THEN Squeeze(A) ELSE A IN [k |-> "ok", axes |-> a.axes, sh |-> C.sh, v |-> C.v]
       IN IF u = "dB" THEN out(B)
          \* weighting what is left of a reduced frequency axis, or weighted means of lines: not stated
          ELSE IF \E q \in 1..Len(P) : P[q].k = "red" /\ ReqOn(o, q, reqs).ax = "freqs" THEN Bad("unspec")
          ELSE IF F = {} THEN Bad("err")
          ELSE IF ~OneEach(m, d) \/ Len(a.sh) # Len(o.axes) THEN Bad("unspec")
          ELSE out(Weighted(m, d, B))
PlainLevel(o, reqs, squeeze) == PlainLevelIn(o, reqs, "dB", squeeze)

(* ------------------------------- harmonics ------------------------------ *)
\* the lines of a request with their coordinates: the n largest are expected
Lines1(m, reqs) == SelectSeq(SeqOf(Len(m.f.axes)), LAMBDA d : m.P[d].k = "sel" /\ ReqsFor(m.f, d, reqs) # {} /\ ~m.f.axes[d].comp
                                                           /\ ReqOn(m.f, d, reqs).ax \in {"freqs", "wavenumber"})
RECURSIVE HasFree(_)
HasFree(t) == ~IsNum(t) /\ (t[1] = "free" \/ \E j \in 1..Len(t[2]) : HasFree(t[2][j]))
Harmonics(o, reqs, u, n) ==
  LET m == TLCEval(Mag(o, reqs)) IN
  IF m.k # "ok" THEN m
  ELSE LET a == MagAnswer(o, reqs, u, FALSE) D == Lines1(m, reqs) IN
    IF a.k # "ok" THEN a
    ELSE IF D = <<>> \/ (\E j \in 1..Len(a.v) : HasFree(a.v[j])) \/ \E d \in 1..Len(a.sh) : a.sh[d] # 1 /\ \A j \in 1..Len(D) : D[j] # d THEN Bad("unspec")
    ELSE [k |-> "ok", n |-> n, names |-> [j \in 1..Len(D) |-> ReqOn(m.f, D[j], reqs).ax],
          tab |-> TLCEval([j \in 1..Len(a.v) |-> [v |-> a.v[j], x |-> [q \in 1..Len(D) |-> m.P[D[q]].x[Unflat(a.sh, j)[D[q]]]]]])]
=============================================================================

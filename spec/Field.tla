------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Fields and the answers to requests on them.                             *)
(*                                                                         *)
(* A field record: cls, name, sym (symbol), unit, axes, val (stored        *)
(* entries, row-major), real, norms, ints (stored as integers); unum, uden,*)
(* ud: see Extract.                                                        *)
(***************************************************************************)
EXTENDS Req

MkField(cls, axes, val) ==
  [cls |-> cls, name |-> "Field", sym |-> "X", unit |-> "T", unum |-> "T", uden |-> "", ud |-> <<>>, axes |-> axes, val |-> val,
   real |-> TRUE, norms |-> <<>>, ints |-> FALSE]

StoredShape(o) == [d \in 1..Len(o.axes) |-> NStored(o.axes[d])]
StoredArr(o) == [sh |-> StoredShape(o), v |-> o.val]
RECURSIVE FullUpTo(_, _, _)
FullUpTo(A, axes, d) ==
  IF d > Len(axes) THEN A
  ELSE FullUpTo(IF axes[d].sym.t = "none" /\ ~axes[d].pat.on THEN A
                ELSE LineMap(A, d, LAMBDA l : FullLine(axes[d], l)), axes, d + 1)
\* the denotation of a field: its whole array
FullArr(o) == FullUpTo(StoredArr(o), o.axes, 1)
\* the same field stored in full
ExpandField(o) ==
  [o EXCEPT !.axes = [d \in 1..Len(o.axes) |-> Expand(o.axes[d])],
            !.val = FullUpTo(StoredArr(o), [d \in 1..Len(o.axes) |->
                       IF o.axes[d].pat.on THEN [o.axes[d] EXCEPT !.pat = NoPat] ELSE o.axes[d]], 1).v]

(* ------------------------------ Fourier --------------------------------- *)
SpectralOf(n) == IF n = "time" THEN "freqs" ELSE IF n = "angle" THEN "wavenumber" ELSE ""
DirectOf(n) == IF n = "freqs" THEN "time" ELSE IF n = "wavenumber" THEN "angle" ELSE ""
\* number of repetitions of one full period around the circumference
NTurns(a) == IF a.sym.t = "per" THEN a.sym.n ELSE IF a.sym.t = "aper" THEN a.sym.n \div 2 ELSE 1
\* spectral axis of a direct axis
SpectralAxis(a, real) ==
  LET N == NOne(a) IN
  [a EXCEPT !.name = SpectralOf(a.name), !.sym = NoSym, !.lin = NoLin, !.e = 0, !.delta = IF N = 1 THEN a.delta ELSE Zero, !.turns = NTurns(a),
     !.unit = IF a.name = "time" THEN "Hz" ELSE "dimless",
     !.x = IF N = 1 THEN <<Zero>>
           ELSE IF a.name = "time" THEN
              LET T == RMul(I(N), StepOf(a)) IN
              IF real THEN [k \in 1..((N \div 2) + 1) |-> RDiv(I(k - 1), T)]
              ELSE [k \in 1..N |-> RDiv(I(k - 1 - (N \div 2)), T)]
           ELSE [k \in 1..N |-> I((k - 1 - (N \div 2)) * NTurns(a))]]
\* DFT lines ks (any integers) of a line of N samples, without scaling; and sums of lines at instants
DftLines(l, ks) ==
  LET N == Len(l) M == LcmFrom(l, 1, N) L == LiftLine(l, M)
  IN TLCEval([i \in 1..Len(ks) |-> TurnSum(L, [j \in 1..N |-> -(ks[i] * (j - 1) * (M \div N))], M)])
\* samples 0..N-1 of the sum of the lines c, line k turning k0 + k - 1 times over N samples
SynthLines(c, k0, N) ==
  LET M == LcmFrom(c, 1, N) L == LiftLine(c, M)
  IN TLCEval([i \in 1..N |-> TurnSum(L, [k \in 1..Len(c) |-> (k0 + k - 1) * (i - 1) * (M \div N)], M)])
OnePart(a, l) == SubSeq(l, 1, NOne(a))
\* one-sided amplitudes (real time signals); two-sided otherwise; twice: one-sided wavenumbers
OneSided(l) ==
  LET N == Len(l) IN
  IF N = 1 THEN l
  ELSE LET c == DftLines(l, [k \in 1..((N \div 2) + 1) |-> k - 1])
       IN TLCEval([k \in 1..((N \div 2) + 1) |-> Mul(Q(IF k = 1 THEN 1 ELSE 2, N), c[k])])
TwoSided(l, twice) ==
  LET N == Len(l) IN
  IF N = 1 THEN l
  ELSE LET c == DftLines(l, [k \in 1..N |-> k - 1 - (N \div 2)])
       IN TLCEval([k \in 1..N |-> Mul(Q(IF twice /\ k # (N \div 2) + 1 THEN 2 ELSE 1, N), c[k])])

\* ---- inverse transform
IsSpectral(a) == a.name \in {"freqs", "wavenumber"}
\* direct axis of a spectral axis with lines at a constant step
DirectAxis(a, real) ==
  LET M == Len(a.x)
      N == IF real /\ a.name = "freqs" THEN 2 * (M - 1) ELSE M
      df == RDiv(RSub(a.x[M], a.x[1]), I(M - 1))
      h == RInv(RMul(df, I(N)))
  IN [a EXCEPT !.name = DirectOf(a.name), !.lin = NoLin, !.turns = 1,
        !.sym = IF a.turns = 1 THEN NoSym ELSE Per(a.turns),
        !.unit = IF a.name = "freqs" THEN "s" ELSE "rad",
        !.e = IF a.name = "freqs" THEN 0 ELSE 1,
        !.x = IF M = 1 THEN <<Zero>>
              ELSE [j \in 1..N |-> RMul(I(j - 1), IF a.name = "freqs" THEN h ELSE RMul(I(2), h))]]
\* number of turns of the first line
K0(a) == LET df == RDiv(RSub(a.x[Len(a.x)], a.x[1]), I(Len(a.x) - 1)) IN RDiv(a.x[1], df)
RePart(z) == IF IsRat(z) THEN z ELSE CScale(<<1, 2>>, CAdd(z, CConj(z)))
InvTwo(a, l) ==
  IF Len(l) = 1 THEN l
  ELSE SynthLines(l, K0(a)[1], Len(l))
\* real signals: the last line is seen once only
InvReal(l) ==
  LET M == Len(l) N == 2 * (M - 1)
      c == [l EXCEPT ![M] = Mul(<<1, 2>>, l[M])]
      s == SynthLines(c, 0, N)
  IN TLCEval([j \in 1..N |-> RePart(s[j])])
\* lines that can be transformed: constant step, the zero line at its usual place
Regular(a, real) ==
  IF a.name = "freqs" /\ real THEN Len(a.x) > 1 /\ a.x[1] = Zero /\ UniformX(a.x) /\ Increasing(a.x)
  ELSE a.x = <<Zero>> \/ (Len(a.x) > 1 /\ UniformX(a.x) /\ Increasing(a.x) /\ (K0(a) = I(-(Len(a.x) \div 2)) \/ (real /\ a.x[1] = Zero)))
RECURSIVE InvAll(_, _, _)
InvAll(A, o, d) ==
  IF d > Len(o.axes) THEN A
  ELSE InvAll(IF IsSpectral(o.axes[d]) /\ ~(o.real /\ o.axes[d].name = "freqs")
              THEN LineMap(A, d, LAMBDA l : InvTwo(o.axes[d], l)) ELSE A, o, d + 1)
RECURSIVE InvLast(_, _, _)
InvLast(A, o, d) ==
  IF d > Len(o.axes) THEN A
  ELSE InvLast(IF o.real /\ o.axes[d].name = "freqs" THEN LineMap(A, d, LAMBDA l : InvReal(l)) ELSE A, o, d + 1)
TimeField(o) ==
  LET B == InvLast(InvAll(StoredArr(o), o, 1), o, 1)
      nofreq == \A d \in 1..Len(o.axes) : o.axes[d].name # "freqs"
  IN [o EXCEPT !.cls = "DataTime",
        !.axes = [d \in 1..Len(o.axes) |-> IF IsSpectral(o.axes[d]) THEN DirectAxis(o.axes[d], o.real) ELSE o.axes[d]],
        !.val = IF o.real /\ nofreq THEN [j \in 1..Len(B.v) |-> Simp(RePart(B.v[j]))]
                ELSE TLCEval([j \in 1..Len(B.v) |-> Simp(B.v[j])])]
\* the spectral field of a field: every time and angle axis transformed
RECURSIVE FwdAll(_, _, _)
FwdAll(A, o, d) ==
  IF d > Len(o.axes) THEN A
  ELSE FwdAll(IF o.axes[d].name \in {"time", "angle"}
              THEN LineMap(A, d, LAMBDA l :
                     LET f == SubSeq(FullLine(o.axes[d], l), 1, NOne(o.axes[d]))
                     IN IF o.real /\ o.axes[d].name = "time" THEN OneSided(f) ELSE TwoSided(f, FALSE))
              ELSE A, o, d + 1)
FreqField(o) ==
  [o EXCEPT !.cls = "DataFreq",
     !.axes = [d \in 1..Len(o.axes) |-> IF o.axes[d].name \in {"time", "angle"} THEN SpectralAxis(o.axes[d], o.real) ELSE o.axes[d]],
     !.val = FwdAll(StoredArr(o), o, 1).v]

(* ----------------------- values asked on pattern axes -------------------- *)
NonDecreasing(x) == \A i \in 1..(Len(x) - 1) : RLe(x[i], x[i + 1])
\* entries of the whole axis that give the value at v; <<>> when it is not stated
PatternEntry(a, x, v, single) ==
  LET n == Len(x)
      at == SelectSeq(SeqOf(n), LAMBDA i : x[i] = v)
      in == SelectSeq(SeqOf(n - 1), LAMBDA i : RLt(x[i], v) /\ RLt(v, x[i + 1]))
      near == SelectSeq(SeqOf(n), LAMBDA i : \A j \in 1..n : RLe(Dist(x[i], v), Dist(x[j], v)))
      same(s) == \A k \in 1..Len(s) : a.pat.idx[s[k]] = a.pat.idx[s[1]]
  IN IF a.pat.step
     THEN IF at # <<>> THEN [k \in 1..Len(at) |-> <<at[k], Q(1, Len(at))>>]     \* mean at a discontinuity
          ELSE IF in # <<>> /\ a.pat.idx[in[1]] = a.pat.idx[in[1] + 1] THEN <<<<in[1], One>>>>
          ELSE <<>>
     ELSE IF RLt(v, x[1]) \/ RLt(x[n], v) THEN <<>>
     ELSE IF single THEN (IF same(near) THEN <<<<near[1], One>>>> ELSE <<>>)
     ELSE IF at # <<>> THEN (IF same(at) THEN <<<<at[1], One>>>> ELSE <<>>)
     ELSE LET t == RDiv(RSub(v, x[in[1]]), RSub(x[in[1] + 1], x[in[1]]))
          IN <<<<in[1], RSub(One, t)>>, <<in[1] + 1, t>>>>
PatternAt(a, x, vs, f) ==
  LET w == TLCEval([j \in 1..Len(vs) |-> PatternEntry(a, x, vs[j], Len(vs) = 1)]) IN
  IF ~NonDecreasing(x) \/ \E j \in 1..Len(vs) : w[j] = <<>> THEN Unspec
  ELSE [k |-> "sel", w |-> w, x |-> vs]

(* ------------------------- matching requests to axes -------------------- *)
Names(o) == {o.axes[d].name : d \in 1..Len(o.axes)}
ReqsFor(o, d, reqs) ==
  {j \in 1..Len(reqs) : \/ reqs[j].ax = o.axes[d].name
                        \/ (reqs[j].ax \notin Names(o) /\ DirectOf(reqs[j].ax) = o.axes[d].name
                            /\ DirectOf(reqs[j].ax) # "")}
\* the request on axis d; first sample when there is none
ReqOn(o, d, reqs) ==
  LET J == ReqsFor(o, d, reqs) IN
  IF J = {} THEN RQ(o.axes[d].name, "first")
  ELSE reqs[CHOOSE j \in J : TRUE]
IsFft(o, d, r) == r.ax # o.axes[d].name

\* what happens to axis d.  k: sel (combinations w of the entries), red (reduction op), keep (operation op
\* that keeps the axis), stored (pattern slices), nan; pre: transform made first; e, x: coordinates returned
PL(k) == [k |-> k, w |-> <<>>, e |-> 0, x |-> <<>>, pre |-> "none", twice |-> FALSE, op |-> ""]
PSel(w, e, x) == [PL("sel") EXCEPT !.w = w, !.e = e, !.x = x]
Picks(is) == [j \in 1..Len(is) |-> <<<<is[j], One>>>>]
\* one-sided wavenumbers: real field, no frequency asked, only non-negative lines kept by index or interval
Twice(o, d, r, s, reqs) ==
  /\ o.real /\ r.ax = "wavenumber" /\ r.f \in {"idx", "range", "ivl", "gt", "lt", "whole"}
  /\ \A j \in 1..Len(reqs) : reqs[j].ax # "freqs"
  /\ \A j \in 1..Len(s.x) : RLe(Zero, s.x[j])
\* segments of an axis, without the empty ones (discontinuities of step patterns)
Segments(x) == SelectSeq(SeqOf(Len(x) - 1), LAMBDA i : x[i] # x[i + 1])
\* components in decreasing order of contribution, when it is stated: declared order, else that of the numbers
Declared(a) == "sort_indices" \in DOMAIN a /\ a.sort_indices # <<>>
Numbered(a) == "nums" \in DOMAIN a /\ a.nums # <<>>
LargestFirst(a) ==
  IF Declared(a) THEN [j \in 1..Len(a.sort_indices) |-> a.sort_indices[j] + 1]
  ELSE IF Numbered(a) THEN SortSeq(SeqOf(Len(a.nums)), LAMBDA p, q : a.nums[p] > a.nums[q])
  ELSE <<>>
PlanOn(o, d, r, reqs) ==
  LET a == o.axes[d] IN
  IF r.f = "first" THEN PSel(<<<<<<1, One>>>>>>, a.e, <<>>)
  ELSE IF a.comp THEN
    CASE r.f \in {"whole", "all"} -> PSel(Picks(SeqOf(Len(a.lab))), 0, <<>>)
      [] r.f = "range" -> IF r.ns[1] < 0 \/ r.ns[2] > Len(a.lab) \/ r.ns[1] >= r.ns[2] THEN Unspec
                          ELSE PSel(Picks([j \in 1..(r.ns[2] - r.ns[1]) |-> r.ns[1] + j]), 0, <<>>)
      [] r.f = "largest" -> LET s == LargestFirst(a) IN
                            IF s = <<>> THEN Unspec ELSE PSel(Picks(SubSeq(s, 1, IF r.ns[1] < Len(s) THEN r.ns[1] ELSE Len(s))), 0, <<>>)
      [] r.f = "idx" -> IF \E j \in 1..Len(r.ns) : ~InRange(r.ns[j], Len(a.lab)) THEN Refused
                        ELSE PSel(Picks([j \in 1..Len(r.ns) |-> PyIdx(r.ns[j], Len(a.lab))]), 0, <<>>)
      [] r.f = "op" -> IF r.op \in Keeping \cup {"integrate"} THEN Refused ELSE [PL("red") EXCEPT !.op = r.op]
      [] OTHER -> Unspec
  ELSE IF IsFft(o, d, r) THEN
    LET sa == SpectralAxis(a, o.real) c == CoordsIn(sa, r.u)
    IN IF a.pat.on \/ (NOne(a) > 1 /\ ~(UniformX(a.x) /\ Increasing(a.x))) THEN Unspec
       ELSE IF ~c.ok THEN Refused
       ELSE IF r.f = "op" THEN
            (IF r.op \in Reductions \ {"integrate"} THEN [PL("red") EXCEPT !.op = r.op, !.pre = "fft"]
             ELSE IF r.op \in {"derivate", "antiderivate"} /\ r.ax = "freqs"
                  THEN IF r.u # "" THEN Unspec ELSE [PL("keep") EXCEPT !.op = r.op, !.pre = "fft", !.e = c.e, !.x = c.x]
             ELSE Refused)
       ELSE IF HasValues(r) /\ r.e # c.e THEN Unspec
       ELSE IF r.f \in {"val", "list", "data"} /\ \E j \in 1..Len(r.vs) : \A m \in 1..Len(c.x) : c.x[m] # r.vs[j] THEN Unspec
       ELSE LET s == SelectOn(r, c.x, Len(c.x), Len(c.x), FALSE, FALSE)
            IN IF s.k = "sel" THEN [PSel(s.w, c.e, s.x) EXCEPT !.pre = "fft", !.twice = Twice(o, d, r, s, reqs)]
               ELSE s
  ELSE IF r.f = "pattern" \/ (r.f = "small" /\ a.pat.on) THEN
    IF ~a.pat.on THEN Refused
    ELSE LET c == CoordsIn([a EXCEPT !.pat = NoPat], r.u)
         IN IF ~c.ok THEN Refused ELSE [PL("stored") EXCEPT !.e = c.e, !.x = c.x]
  ELSE IF r.f = "op" /\ ~CoordsIn(a, r.u).ok THEN Refused
  \* integrals in another unit or normalization are not stated
  ELSE IF r.f = "op" /\ IsPhys(a) /\ r.u \notin {"", "SI", a.unit} /\ r.op \notin {"sum", "max", "min"} THEN Unspec
  \* integrals need increasing coordinates, derivatives a constant step
  ELSE IF r.f = "op" /\ IsPhys(a) /\ ~a.pat.on /\ r.op \notin {"sum", "max", "min"}
          /\ (~Increasing(a.x) \/ (r.op = "derivate" /\ ~UniformX(a.x))) THEN Unspec
  ELSE IF r.f = "op" THEN
    IF r.op \in Keeping THEN
       IF a.name = "freqs" /\ r.op # "integrate_local" THEN [PL("keep") EXCEPT !.op = r.op, !.pre = "own", !.e = a.e, !.x = a.x]
       ELSE IF ~IsPhys(a) THEN Refused
       ELSE IF r.u # "" \/ NSamples(a) = 1 \/ (a.pat.on /\ r.op = "derivate") THEN Unspec
       ELSE [PL("keep") EXCEPT !.op = r.op, !.e = a.e,
              !.x = LET x == IF a.pat.on THEN FullX(a) ELSE a.x S == Segments(x) IN
                    IF r.op = "integrate_local" /\ a.name = "z"
                    THEN [j \in 1..Len(S) |-> RMul(<<1, 2>>, RAdd(x[S[j]], x[S[j] + 1]))] ELSE x]
    \* integrals over a single stored sample of a periodic axis are not stated
    ELSE IF NStored(a) = 1 /\ a.sym.t # "none" /\ IsPhys(a) /\ r.op \in {"integrate", "rss"} THEN Unspec
    ELSE IF a.pat.on /\ IsPhys(a) /\ r.op \in {"mean", "rms"} /\ NFull(a) > 1 /\ Length(a, FullX(a)) = Zero THEN Unspec
    ELSE IF CanReduce(r.op, a) THEN [PL("red") EXCEPT !.op = r.op] ELSE Refused
  ELSE LET c == CoordsIn(a, r.u) IN
    IF ~c.ok THEN Refused
    ELSE IF HasValues(r) /\ r.e # c.e THEN Unspec
    ELSE LET s == IF a.pat.on /\ r.f \in {"val", "list", "data"} THEN PatternAt(a, c.x, r.vs, r.f)
                  ELSE SelectOn(r, c.x, NOne(a), NStored(a), a.sym.t = "aper", a.pat.on)
         IN IF s.k = "sel" THEN PSel(s.w, c.e, s.x)
            ELSE IF s.k = "nan" THEN [PL("nan") EXCEPT !.e = c.e, !.x = s.x]
            ELSE s

Plans(o, reqs) == [d \in 1..Len(o.axes) |-> PlanOn(o, d, ReqOn(o, d, reqs), reqs)]

(* ------------- derivative / primitive / local integral on an axis -------- *)
Seg(x, l, i) == Mul(RMul(<<1, 2>>, RSub(x[i + 1], x[i])), Add(l[i], l[i + 1]))
KeepLine(op, a, l) ==   \* l: whole line, result on the stored samples (all of them for patterns)
  LET x == FullX(a)
      n == IF a.pat.on THEN Len(x) ELSE NStored(a)
      m == IF a.pat.on THEN Len(x) ELSE NOne(a)
      p == SubSeq(x, 1, m) q == SubSeq(l, 1, m)
  IN CASE op = "derivate" -> [i \in 1..n |-> Scaled(-a.e, PerDerivAt(p, q, i))]
       [] op = "antiderivate" -> LET z == ZeroMean(Cum(p, q)) IN [i \in 1..n |-> Scaled(a.e, z[i])]
       \* axial axes: one integral per segment; others: half of the segments on both sides of a sample
       [] op = "integrate_local" /\ a.name = "z" ->
            LET S == Segments(SubSeq(x, 1, n)) IN [j \in 1..Len(S) |-> Scaled(a.e, Seg(x, l, S[j]))]
       [] op = "integrate_local" ->
            [i \in 1..n |-> Scaled(a.e, Mul(<<1, 2>>, Add(IF i > 1 THEN Seg(x, l, i - 1) ELSE Zero,
                                                          IF i < n THEN Seg(x, l, i) ELSE Zero)))]
\* derivative and primitive of a spectrum: lines times (2 i pi f), divided by (2 i pi f)
KeepSpectral(op, x, l) ==
  [i \in 1..Len(l) |->
     IF op = "derivate" THEN Scaled(1, Mul(Complex(Zero, RMul(I(2), x[i])), l[i]))
     ELSE IF x[i] = Zero THEN Free
     ELSE Scaled(-1, Mul(Complex(Zero, RNeg(RInv(RMul(I(2), x[i])))), l[i]))]

(* ------------------------------- answers -------------------------------- *)
\* first pass: selections and Fourier on every axis
Spectrum(o, d, p, l) ==
  IF o.real /\ o.axes[d].name = "time" THEN OneSided(OnePart(o.axes[d], l))
  ELSE TwoSided(OnePart(o.axes[d], l), p.twice)
RECURSIVE SelAll(_, _, _, _)
SelAll(A, o, P, d) ==
  IF d > Len(P) THEN A
  ELSE LET p == P[d] IN
    SelAll(CASE p.k = "sel" /\ p.pre = "none" -> LineMap(A, d, LAMBDA l : ApplySel(p, l))
             [] p.k = "sel" /\ p.pre = "fft" -> LineMap(A, d, LAMBDA l : ApplySel(p, Spectrum(o, d, p, l)))
             [] p.k \in {"red", "keep"} /\ p.pre = "fft" -> LineMap(A, d, LAMBDA l : Spectrum(o, d, p, l))
             [] p.k = "stored" -> LineMap(A, d, LAMBDA l : [i \in 1..Len(o.axes[d].x) |->
                     l[CHOOSE j \in 1..Len(l) : o.axes[d].pat.idx[j] = i]])
             [] p.k = "nan" -> LineMap(A, d, LAMBDA l : <<l[1]>>)   \* no value: see Answer
             [] OTHER -> A, o, P, d + 1)
RECURSIVE OpAll(_, _, _, _)
\* second pass: operations, in the order of the axes of the field
OpAll(A, o, P, d) ==
  IF d > Len(P) THEN A
  ELSE LET p == P[d] a == o.axes[d] IN
    OpAll(CASE p.k = "red" /\ p.pre = "fft" -> LineMap(A, d, LAMBDA l : <<ReduceWith(p.op, a, <<>>, l, FALSE)>>)
            [] p.k = "keep" /\ p.pre # "none" -> LineMap(A, d, LAMBDA l : KeepSpectral(p.op, p.x, l))
            [] p.k = "red" -> LineMap(A, d, LAMBDA l : <<Reduce(p.op, a, FullX(a), l)>>)
            [] p.k = "keep" -> LineMap(A, d, LAMBDA l : KeepLine(p.op, a, l))
            [] OTHER -> A, o, P, d + 1)

AxisOut(o, d, r, p) ==
  [n |-> r.ax,
   t |-> IF p.k = "red" THEN "op" ELSE IF o.axes[d].comp THEN "lab" ELSE "x",
   op |-> IF p.k = "red" THEN p.op ELSE "",
   e |-> IF p.k = "red" \/ o.axes[d].comp THEN 0 ELSE p.e,
   x |-> IF p.k = "red" \/ o.axes[d].comp THEN <<>> ELSE p.x,
   lab |-> IF p.k # "red" /\ o.axes[d].comp THEN [j \in 1..Len(p.w) |-> o.axes[d].lab[p.w[j][1][1]]] ELSE <<>>]

\* axes not named are taken at their first sample, which the answer tells
Others(o, reqs) ==
  LET S == SelectSeq(SeqOf(Len(o.axes)), LAMBDA d : ReqsFor(o, d, reqs) = {})
  IN [j \in 1..Len(S) |-> LET a == o.axes[S[j]] IN
       [n |-> a.name, t |-> IF a.comp THEN "lab" ELSE "x", op |-> "", u |-> a.unit, e |-> IF a.comp THEN 0 ELSE a.e,
        x |-> IF a.comp THEN <<>> ELSE <<FullX(a)[1]>>, lab |-> IF a.comp THEN <<a.lab[1]>> ELSE <<>>]]
Bad(k) == [k |-> k, axes |-> <<>>, sh |-> <<>>, v |-> <<>>]
\* field values in another unit or normalization; "->": the reference normalization
FieldNorm(o, u) == {k \in 1..Len(o.norms) : o.norms[k].name = IF u = "->" THEN "ref" ELSE u}
FieldPlain(o, u) == u = "" \/ u = "SI" \/ u = o.unit
FieldCan(o, u) ==
  CASE FieldPlain(o, u) -> "ok"
    [] FieldNorm(o, u) # {} -> IF \A k \in FieldNorm(o, u) : o.norms[k].k \in {"ref", "affine", "func"} THEN "ok" ELSE "unspec"
    [] OTHER -> IF u # "->" /\ Convertible(o.unit, u) THEN "ok" ELSE "err"
NormValue(n, y) ==
  CASE n.k = "ref" -> Mul(RInv(n.p), y)
    [] n.k = "affine" -> Add(Mul(n.p, y), n.q)
    [] n.k = "func" -> Add(Sqr(y), n.p)
FieldIn(o, A, u) ==
  IF FieldPlain(o, u) THEN A
  ELSE IF FieldNorm(o, u) # {} THEN LET n == o.norms[CHOOSE k \in FieldNorm(o, u) : TRUE] IN EntryMap(A, LAMBDA y : NormValue(n, y))
  ELSE LET f == Factor(o.unit, u) IN EntryMap(A, LAMBDA y : Scaled(f.e, Mul(f.r, y)))

Requested(o, reqs) == SelectSeq([d \in 1..Len(o.axes) |-> d], LAMBDA d : ReqsFor(o, d, reqs) # {})
AnswerOn(o, reqs, u, squeeze) ==
  LET P == TLCEval(Plans(o, reqs)) IN
  IF \E d \in 1..Len(P) : P[d].k = "err" THEN Bad("err")
  ELSE IF \E d \in 1..Len(P) : P[d].k = "unspec" THEN Bad("unspec")
  \* squares and order of complex values are not stated
  ELSE IF /\ ~o.real \/ \E d \in 1..Len(P) : P[d].pre = "fft" \/ IsSpectral(o.axes[d])
          /\ \E d \in 1..Len(P) : P[d].k = "red" /\ P[d].op \in {"rms", "rss", "max", "min"} THEN Bad("unspec")
  ELSE IF FieldCan(o, u) # "ok" THEN Bad(FieldCan(o, u))
  \* reductions of missing values are not stated
  ELSE IF /\ (\E d \in 1..Len(P) : P[d].k = "nan") \/ \E j \in 1..Len(o.val) : ~IsNum(o.val[j]) /\ o.val[j][1] = "nan"
          /\ \E d \in 1..Len(P) : P[d].k \in {"red", "keep"} THEN Bad("unspec")
  ELSE LET A0 == FieldIn(o, OpAll(SelAll(FullArr(o), o, P, 1), o, P, 1), u)
           A == IF \E d \in 1..Len(P) : P[d].k = "nan" THEN EntryMap(A0, LAMBDA y : NaN) ELSE A0
           B == IF squeeze THEN Squeeze(A) ELSE A
           D == Requested(o, reqs)
       IN [k |-> "ok", axes |-> [j \in 1..Len(D) |-> AxisOut(o, D[j], ReqOn(o, D[j], reqs), P[D[j]])],
           sh |-> B.sh, v |-> B.v, other |-> Others(o, reqs)]
\* a spectral field asked along a direct axis answers like its time field
AsksDirect(o, reqs) ==
  \E j \in 1..Len(reqs) : reqs[j].ax \notin Names(o) /\ SpectralOf(reqs[j].ax) # "" /\ SpectralOf(reqs[j].ax) \in Names(o)
Answer(o, reqs, u, squeeze) ==
  IF ~AsksDirect(o, reqs) THEN AnswerOn(o, reqs, u, squeeze)
  \* spectral axes left out, or not regular: not stated
  ELSE IF \E d \in 1..Len(o.axes) : IsSpectral(o.axes[d]) /\
            (~Regular(o.axes[d], o.real)
             \/ \A j \in 1..Len(reqs) : reqs[j].ax \notin {o.axes[d].name, DirectOf(o.axes[d].name)}) THEN Bad("unspec")
  \* instants given by value: see Harm
  ELSE IF \E j \in 1..Len(reqs) : SpectralOf(reqs[j].ax) # "" /\ reqs[j].f \in {"list", "data"} THEN Bad("unspec")
  ELSE AnswerOn(TimeField(o), reqs, u, squeeze)
=============================================================================

------------------------------- MODULE MC_C06 -------------------------------
(* Spectra: lines and amplitudes.                                           *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"time">>, <<"angle">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "phase">>, <<"z", "angle">>, <<"angle", "x">>, <<"time", "angle", "z">>, <<"x", "time", "angle">>,
              <<"angle", "phase", "time">> >>
AxesI(i) ==
  LET L == P(i, 1, Layouts) IN
  [d \in 1..Len(L) |->
     IF L[d] = "phase" THEN CompD(i, 100 * d, L[d], 2)
     ELSE AxisD(i, 100 * d, L[d], 1,
                IF L[d] \in {"x", "z"} THEN 2 ELSE IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 12,
                IF Len(L) = 1 THEN << NoSym, Per(2), Per(3), APer(2), APer(4) >>
                ELSE IF L[d] \in {"x", "z"} THEN << NoSym >>
                ELSE << NoSym, Per(2), APer(2), Per(3), APer(4) >>)]
FieldI(i) ==
  LET axes == AxesI(i) f == FieldOf(i, axes) IN
  IF D(i, 3, 4) = 0
  THEN [f EXCEPT !.real = FALSE, !.val = [j \in 1..Len(f.val) |-> Complex(f.val[j], ValOf(i + 1, j))]]
  ELSE f
SpecReq(i, o, a, b) ==
  LET s == SpectralAxis(a, o.real) n == Len(s.x) k == D(i, b, 12)
      j == D(i, b + 1, n) m == D(i, b + 2, n)
      lo == s.x[1 + Min2(j, m)] hi == s.x[1 + Max2(j, m)]
      q == IF n = 1 THEN One ELSE RMul(<<1, 4>>, RSub(s.x[2], s.x[1]))
  IN CASE k <= 3 -> Whole(s.name)
       [] k = 4 -> Idx(s.name, <<j>>)
       [] k = 5 -> Idx(s.name, <<m, j>>)
       [] k = 6 -> Ivl(s.name, RSub(lo, q), RAdd(hi, q))
       [] k = 7 -> Gt(s.name, RSub(lo, q))
       [] k = 8 -> Range(s.name, Min2(j, m), Max2(j, m) + 1)
       [] k = 9 -> Val(s.name, s.x[1 + j])
       [] k = 10 -> IF n > 3 THEN Data(s.name, <<s.x[1], s.x[n - 1], s.x[n]>>) ELSE Whole(s.name)
       [] OTHER -> IF s.name = "freqs" /\ n > 1 THEN InUnit(Whole(s.name), "kHz") ELSE Whole(s.name)
ReqI(i, o, a, b) ==
  IF SpectralOf(a.name) # "" /\ D(i, b + 20, 5) # 0 THEN SpecReq(i, o, a, b + 30)
  ELSE IF a.comp THEN CompSelD(i, b + 30, a) ELSE SelD(i, b + 30, a, "")
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 8) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, o, o.axes[S[j]], 100 * S[j])])
K == Budget(3000, 30000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET o == TLCEval(FieldI(i)) IN Call1(i, o, [Get(1, ReqsI(i, o)) EXCEPT !.sq = D(i, 5, 4) # 0])
Spec == Init /\ [][Next]_vars

\* the amplitudes rebuild the samples: sum of c_k w^(jk) over the lines (two-sided), exact in the cyclotomic field
RECURSIVE Synth(_, _, _, _, _)
Synth(c, N, j, k, acc) ==
  IF k > N THEN acc
  ELSE Synth(c, N, j, k + 1, CAdd(acc, CTurn(c[k], N, (k - 1 - (N \div 2)) * j)))
Rebuilds ==
  (log # <<>> /\ Len(heap[1].axes) = 1 /\ heap[1].axes[1].name = "angle" /\ NOne(heap[1].axes[1]) \in (1..9) \cup {12}) =>
    LET o == [heap[1] EXCEPT !.real = FALSE] a == o.axes[1] N == NOne(a)
        c == Answer(o, <<Whole("wavenumber")>>, "", FALSE).v
        l == FullArr(o).v
    IN \A j \in 1..N : CEq(l[j], Synth(c, N, j - 1, 1, Zero))
\* lines of reduced storage are multiples of the period count
Multiples ==
  (log # <<>> /\ Len(heap[1].axes) = 1 /\ heap[1].axes[1].name = "angle") =>
    LET a == heap[1].axes[1] s == SpectralAxis(a, TRUE)
    IN \A j \in 1..Len(s.x) : s.x[j][2] = 1 /\ s.x[j][1] % NTurns(a) = 0
=============================================================================

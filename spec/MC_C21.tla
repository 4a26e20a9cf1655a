------------------------------- MODULE MC_C21 -------------------------------
(* Sums and products of spectra.                                            *)
EXTENDS Scen, Lines

Tols == << [on |-> FALSE, t |-> <<1, 10000>>, g |-> One], [on |-> FALSE, t |-> <<1, 10000>>, g |-> <<1, 3>>],
           [on |-> TRUE, t |-> One, g |-> I(4)], [on |-> TRUE, t |-> <<1, 16>>, g |-> <<1, 4>>], [on |-> TRUE, t |-> <<1, 16>>, g |-> One] >>
TolI(i) == P(i, 1, Tols)
\* lines at multiples of the step; moved a little when the tolerance is given; zero line real and exact
FreqD(i, b, z) ==
  LET T == TolI(i) k == D(i, b, 7) + z IN
  RAdd(RMul(T.g, I(k)), IF T.on /\ k > 0 THEN RMul(T.t, P(i, b + 1, << Zero, Zero, <<1, 8>>, <<-1, 8>> >>)) ELSE Zero)
AmpD(i, b, f) ==
  LET re == I(D(i, b, 9) - 4) im == I(D(i, b + 1, 7) - 3) IN
  IF f = Zero \/ D(i, b + 2, 4) = 0 THEN re ELSE Complex(re, im)
SpecD(i, b) ==
  LET n == 1 + D(i, b, 5) z == D(i, b + 1, 2)
      f0 == [j \in 1..n |-> FreqD(i, b + 10 + 2 * j, z)]
      \* mostly one line per frequency, sorted; sometimes any order with repetitions
      f == IF D(i, b + 2, 4) = 0 THEN f0 ELSE LET m == Merge([j \in 1..n |-> Ln(f0[j], One)], TolI(i).t) IN [j \in 1..Len(m) |-> m[j].f]
      f1 == IF D(i, b + 3, 40) = 0 THEN [f EXCEPT ![1] = I(-9)] ELSE f
      a == MkAxis(IF D(i, b + 4, 60) = 0 THEN "wavenumber" ELSE "freqs", "Hz", 0, f1, NoSym)
      a1 == IF Len(f1) > 2 /\ UniformX(f1) /\ Increasing(f1) /\ f1[2] # f1[1] THEN AsLin(a, D(i, b + 5, 8)) ELSE a
      ref(p) == <<[name |-> "ref", k |-> "ref", u |-> "SI", p |-> p, q |-> Zero, e |-> 0, vec |-> <<>>]>>
      o == [MkField("DataFreq", <<[a1 EXCEPT !.norms = IF D(i, b + 7, 3) = 0 THEN ref(I(50)) ELSE <<>>]>>,
                    [j \in 1..Len(f1) |-> AmpD(i, b + 40 + 3 * j, f1[j])])
              EXCEPT !.norms = IF D(i, b + 8, 2) = 0 THEN ref(I(3 + D(i, b + 9, 4))) ELSE <<>>]
  IN IF D(i, b + 6, 40) = 0 THEN [o EXCEPT !.axes = Append(@, MkAxis("z", "m", 0, <<Zero, One>>, NoSym)),
                                           !.val = [j \in 1..(2 * Len(f1)) |-> One]]
     ELSE o
BandI(i) ==
  LET T == TolI(i) h == RMul(<<1, 2>>, T.g) lo == RAdd(h, RMul(T.g, I(D(i, 11, 3)))) IN
  CASE D(i, 12, 5) = 0 -> <<lo, Zero>>
    [] D(i, 12, 5) = 1 -> <<Zero, RAdd(h, RMul(T.g, I(3 + D(i, 13, 6))))>>
    [] D(i, 12, 5) = 2 -> <<lo, RAdd(h, RMul(T.g, I(3 + D(i, 13, 6))))>>
    [] OTHER -> <<Zero, Zero>>
Fine(o) == Len(o.axes) = 1 /\ o.axes[1].name = "freqs" /\ \A j \in 1..Len(o.axes[1].x) : RLe(Zero, o.axes[1].x[j])
SpecLines(o) == LinesOf(o.axes[1].x, o.val)
LinesAnswer(o, p, c) ==
  IF ~Fine(o) \/ ~Fine(p) THEN Bad("err")
  ELSE LET r == IF c.m = "freq_sum" THEN Merge(SpecLines(o) \o SpecLines(p), c.t)
                ELSE Conv(SpecLines(o), SpecLines(p), c.t, c.lo, c.hi)
       \* an empty band is not stated
       IN IF r = <<>> THEN Bad("unspec")
          ELSE [k |-> "ok", f |-> [j \in 1..Len(r) |-> r[j].f], v |-> [j \in 1..Len(r) |-> r[j].a], tol |-> c.t]
CallI(i, a, b) ==
  LET band == BandI(i) IN
  [m |-> IF D(i, 2, 3) = 0 THEN "freq_sum" ELSE "freq_conv", o |-> a, p |-> b, t |-> TolI(i).t, given |-> TolI(i).on,
   lo |-> band[1], hi |-> band[2], meta |-> D(i, 14, 3) = 0]
K == Budget(3000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET h == TLCEval(<<SpecD(i, 100), [SpecD(i, 300) EXCEPT !.name = "Other", !.sym = "Y", !.unit = "N"]>>)
           c1 == CallI(i, 1, 2) c2 == CallI(i, 2, 1)
           steps == TLCEval(<<[call |-> c1, ans |-> LinesAnswer(h[1], h[2], c1)], [call |-> c2, ans |-> LinesAnswer(h[2], h[1], c2)]>>)
       IN /\ heap' = h /\ log' = steps /\ cid' = i
          /\ Write([id |-> i, objs |-> h, steps |-> steps, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

Clear == log # <<>> => LET t == log[1].call.t IN
  /\ \A q \in 1..2 : LET x == heap[q].axes[1].x IN
       \A j, k \in 1..Len(x) : Near(x[j], x[k], t) \/ RLt(t, RAbs(RSub(x[j], x[k])))
  /\ log[1].ans.k = "ok" => \A j, k \in 1..Len(log[1].ans.f) : j < k => RLt(t, RSub(log[1].ans.f[k], log[1].ans.f[j]))
\* commutative, up to the representative of the lines
Commutes == log # <<>> /\ log[1].ans.k = "ok" =>
  /\ Len(log[1].ans.f) = Len(log[2].ans.f)
  /\ \A j \in 1..Len(log[1].ans.f) : Near(log[1].ans.f[j], log[2].ans.f[j], log[1].call.t) /\ CEq(log[1].ans.v[j], log[2].ans.v[j])
\* at the origin of time the signals are added or multiplied
Signals == log # <<>> /\ log[1].ans.k = "ok" /\ (log[1].call.m = "freq_sum" \/ (log[1].call.lo = Zero /\ log[1].call.hi = Zero)) =>
  LET x == AtZero(SpecLines(heap[1]), 1) y == AtZero(SpecLines(heap[2]), 1)
      z == AtZero(LinesOf(log[1].ans.f, log[1].ans.v), 1)
  IN z = IF log[1].call.m = "freq_sum" THEN RAdd(x, y) ELSE RMul(x, y)
=============================================================================

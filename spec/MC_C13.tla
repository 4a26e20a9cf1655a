------------------------------- MODULE MC_C13 -------------------------------
(* Axes as objects: lengths, coordinates, rewriting on another periodicity  *)
(* or as a linspace.                                                        *)
EXTENDS Scen

N0(k, v) == [name |-> k, k |-> k, u |-> "SI", p |-> I(3), q |-> I(1), e |-> 0, vec |-> v]
Sets == << NoSym, NoSym, Per(2), Per(3), Per(5), APer(2), APer(4), APer(6), Per(1) >>
AxisI(i) ==
  LET a == AxisD(i, 10, P(i, 1, << "time", "angle", "z", "x", "speed", "time", "angle" >>), 1, 12, Sets)
      n == Len(a.x)
      \* vector normalizations that are regular keep their meaning on any periodicity
      v == GridX(I(2), P(i, 3, << One, <<1, 4>>, I(-3) >>), n)
      norms == CASE D(i, 2, 4) = 0 -> <<N0("ref", <<>>), N0("affine", <<>>)>>
                 [] D(i, 2, 4) = 1 /\ n > 1 -> <<N0("vector", v), N0("indices", <<>>)>>
                 [] OTHER -> <<>>
  IN [a EXCEPT !.norms = norms]
SpectralI(i) ==
  LET n == 1 + D(i, 10, 7) name == P(i, 1, << "freqs", "wavenumber" >>)
      h == I(1 + D(i, 11, 3))
      a == MkAxis(name, IF name = "freqs" THEN "Hz" ELSE "dimless", 0,
                  GridX(IF D(i, 12, 2) = 0 THEN Zero ELSE RMul(h, I(-(n \div 2))), h, n), NoSym)
  IN [AsLin(a, D(i, 13, 8)) EXCEPT !.turns = P(i, 14, << 1, 2, 3 >>)]
ObjI(i) == IF D(i, 4, 8) = 0 THEN SpectralI(i) ELSE IF D(i, 4, 8) = 1 THEN CompD(i, 10, "phase", 6)
           ELSE IF D(i, 4, 8) = 2 THEN UnevenD(i, 10, "x", 2, 8) ELSE AxisI(i)
Parts(a) == IF IsSpectral(a) \/ a.comp THEN << "whole", "small" >> ELSE << "whole", "one", "small", "anti" >>
LenOf(o, part) == [m |-> "axis_length", o |-> o, part |-> part]
ValsOf(o, part, u) == [m |-> "axis_values", o |-> o, part |-> part, u |-> u]
Sizes(o, a) == LET p == Parts(a) IN
  [j \in 1..Len(p) |-> LenOf(o, p[j])] \o [j \in 1..Len(p) |-> ValsOf(o, p[j], "")]
\* normalizations of an axis with one stored sample have no stated extension
Normed(o, a, part) == IF NStored(a) = 1 THEN <<>> ELSE [j \in 1..Len(a.norms) |-> ValsOf(o, part, a.norms[j].name)]
CallsI(i, a) ==
  LET base == Sizes(1, a) \o Normed(1, a, "whole") \o Normed(1, a, "one")
      n == 1 + D(i, 30, 6) ap == D(i, 31, 3) = 0
      div == SelectSeq([k \in 1..12 |-> k], LAMBDA k : NFull(a) % k = 0)
      m == IF D(i, 32, 3) = 0 THEN n ELSE LET q == P(i, 33, div) IN IF ap /\ q % 2 = 0 THEN q \div 2 ELSE q
      b == TLCEval(Rewrite(a, m, ap))
      m2 == 1 + D(i, 34, 4)
      c == TLCEval(Rewrite(b, m2, FALSE))
  IN IF a.comp THEN base
     ELSE IF IsSpectral(a) \/ ~UniformX(a.x)
     THEN base \o (IF a.lin.on THEN <<>> ELSE <<On("axis_to_linspace", 1)>> \o Sizes(2, a))
     ELSE base \o << [m |-> "axis_periodicity", o |-> 1], [m |-> "axis_periodic", o |-> 1, n |-> m, aper |-> ap] >>
          \o Sizes(2, b) \o Normed(2, b, "whole")
          \o << [m |-> "axis_periodicity", o |-> 2], [m |-> "axis_periodic", o |-> 2, n |-> m2, aper |-> FALSE] >>
          \o Sizes(3, c) \o (IF NStored(b) = 1 THEN <<>> ELSE Normed(3, c, "whole")) \o Normed(1, a, "whole")
          \o (IF a.lin.on THEN <<>> ELSE <<On("axis_to_linspace", 1)>> \o Sizes(4, a) \o Normed(4, a, "whole"))
K == Budget(1500, 15000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET a == TLCEval(ObjI(i)) IN CallN(i, <<a>>, TLCEval(CallsI(i, a)))
Spec == Init /\ [][Next]_vars

\* every rewriting represents the coordinates of the first axis
Keeps == log # <<>> => \A k \in 2..Len(heap) : FullX(heap[k]) = FullX(heap[1])
\* lengths announced are those of the coordinates
Agree == \A k \in 1..Len(log) :
  log[k].call.m = "axis_values" /\ log[k].ans.k = "ok" /\ ~heap[log[k].call.o].comp =>
    Len(log[k].ans.x) = PartLen(heap[log[k].call.o], log[k].call.part)
\* the whole axis goes on at constant step
NoGap == log # <<>> => \A k \in 1..Len(heap) :
  heap[k].sym.t # "none" => UniformX(FullX(heap[k]))
=============================================================================

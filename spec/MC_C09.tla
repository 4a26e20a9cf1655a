------------------------------- MODULE MC_C09 -------------------------------
(* Unit conversion.                                                         *)
EXTENDS Scen

\* a unit expression: product of one or two atoms over nothing or one atom; spelling variants
NSym == Len(Symbols)
AtomD(i, b) ==
  LET s == 1 + D(i, b, NSym) IN
  \* dimensionless has neither prefix nor power
  IF s = 1 THEN Atom(1, 1, 1)
  ELSE Atom(IF D(i, b + 1, 3) = 0 THEN 1 ELSE 1 + D(i, b + 1, Len(Prefixes)), s, P(i, b + 2, << 1, 1, 1, 2, 3 >>))
\* same dimension as a, other prefix and, when there is one, other symbol
SameDim(s) == SelectSeq([j \in 1..NSym |-> j], LAMBDA j : Symbols[j][3] = Symbols[s][3])
LikeD(i, b, a) ==
  IF a.s = 1 THEN a ELSE
  [a EXCEPT !.s = P(i, b, SameDim(a.s)), !.p = IF D(i, b + 1, 4) = 0 THEN 1 ELSE 1 + D(i, b + 1, Len(Prefixes))]
\* an expression: numerator atoms, denominator atoms, style of writing
Expr(num, den, style) == [num |-> num, den |-> den, style |-> style]
ExprD(i, b) ==
  LET n == P(i, b, << 1, 1, 1, 2, 0 >>) m == P(i, b + 1, << 0, 0, 1, 1 >>)
  IN Expr(IF n = 0 THEN <<>> ELSE [j \in 1..n |-> AtomD(i, b + 10 + 5 * j)],
          IF n = 0 \/ m = 1 THEN <<AtomD(i, b + 30)>> ELSE <<>>, D(i, b + 2, 4))
LikeE(i, b, e) ==
  [num |-> Perm(i, b, [j \in 1..Len(e.num) |-> LikeD(i, b + 10 + 5 * j, e.num[j])]),
   den |-> [j \in 1..Len(e.den) |-> LikeD(i, b + 40 + 5 * j, e.den[j])], style |-> D(i, b + 60, 4)]
RECURSIVE ScaleOf(_, _)
ScaleOf(s, j) == IF j > Len(s) THEN Unity ELSE ProdScale(AtomScale(s[j]), ScaleOf(s, j + 1))
ExprScale(e) == QuotScale(ScaleOf(e.num, 1), ScaleOf(e.den, 1))
\* known derived units, written out: left and right are the same quantity
Same == << << <<"J", 1>>, << <<"N", 1>>, <<"m", 1>> >>, <<>> >>, << <<"W", 1>>, << <<"J", 1>> >>, << <<"s", 1>> >> >>,
           << <<"Pa", 1>>, << <<"N", 1>> >>, << <<"m", 2>> >> >>, << <<"T", 1>>, << <<"Wb", 1>> >>, << <<"m", 2>> >> >>,
           << <<"V", 1>>, << <<"Wb", 1>> >>, << <<"s", 1>> >> >>, << <<"H", 1>>, << <<"Wb", 1>> >>, << <<"A", 1>> >> >>,
           << <<"Ohm", 1>>, << <<"V", 1>> >>, << <<"A", 1>> >> >>, << <<"F", 1>>, << <<"C", 1>> >>, << <<"V", 1>> >> >>,
           << <<"C", 1>>, << <<"A", 1>>, <<"s", 1>> >>, <<>> >>, << <<"V", 1>>, << <<"A", 1>>, <<"Ohm", 1>> >>, <<>> >>,
           << <<"N", 1>>, << <<"g", 1>>, <<"m", 1>> >>, << <<"s", 2>> >> >>, << <<"Hz", 1>>, <<>>, << <<"s", 1>> >> >>,
           << <<"rpm", 1>>, << <<"rad", 1>> >>, << <<"s", 1>> >> >>, << <<"H", 1>>, << <<"V", 1>>, <<"s", 1>> >>, << <<"A", 1>> >> >> >>
SymAt(q) == Atom(1, SymIdx(q[1]), q[2])
KnownD(i, b) ==
  LET k == P(i, b, Same) pre(a, s) == [a EXCEPT !.p = IF D(i, s, 2) = 0 THEN 1 ELSE 1 + D(i, s, Len(Prefixes))] IN
  << Expr(<<pre(SymAt(k[1]), b + 1)>>, <<>>, D(i, b + 2, 4)),
     Expr([j \in 1..Len(k[2]) |-> pre(SymAt(k[2][j]), b + 2 + j)], [j \in 1..Len(k[3]) |-> pre(SymAt(k[3][j]), b + 6 + j)], D(i, b + 9, 4)) >>
PairI(i) ==
  LET e == ExprD(i, 10) k == D(i, 1, 10) IN
  IF k <= 5 THEN <<e, LikeE(i, 100, e)>>
  ELSE IF k <= 7 THEN LET q == KnownD(i, 200) IN IF D(i, 2, 2) = 0 THEN q ELSE <<q[2], q[1]>>
  ELSE <<e, ExprD(i, 300)>>
\* what the library is given: atoms and style; how they are written is the harness' business
Spelled(e) ==
  [num |-> [j \in 1..Len(e.num) |-> <<Prefixes[e.num[j].p][1], Symbols[e.num[j].s][1], e.num[j].k>>],
   den |-> [j \in 1..Len(e.den) |-> <<Prefixes[e.den[j].p][1], Symbols[e.den[j].s][1], e.den[j].k>>], style |-> e.style]
ConvAns(e, f) ==
  LET q == QuotScale(ExprScale(e), ExprScale(f)) IN
  IF q.d # Dim0 THEN [k |-> "err", exc |-> <<"UnitError">>]
  ELSE [k |-> "ok", q |-> q.q]
\* usual spellings without signs
Texts == << <<"Nm", "kNm", <<1, 1000>>>>, <<"Nm", "J", One>>, <<"Nmm", "Nm", <<1, 1000>>>>, <<"Vs", "Wb", One>>, <<"kg/m3", "g/m3", I(1000)>>,
            <<"VA", "W", One>>, <<"", "dimless", One>>, <<"dimless", "", One>>, <<"/s", "Hz", One>>, <<"N/m^2", "Pa", One>>, <<"N / mm2", "MPa", One>>,
            <<"W/m2", "kW/m2", <<1, 1000>>>>, <<"A/mm2", "A/m2", I(1000000)>>, <<"Ah", "C", I(3600)>> >>
Bark(f) == RSub(RDiv(RMul(<<2681, 100>>, f), RAdd(I(1960), f)), <<53, 100>>)
CallsI(i) ==
  LET p == TLCEval(PairI(i)) vs == [j \in 1..(1 + D(i, 3, 3)) |-> ValOf(i, j)]
      c(e, f) == [call |-> [m |-> "convert", u |-> Spelled(e), w |-> Spelled(f), vs |-> vs, scalar |-> D(i, 4, 4) = 0], ans |-> ConvAns(e, f)]
      fz == P(i, 5, << I(20), I(500), I(1960), I(5000), Zero, I(15000) >>)
      bad == [call |-> [m |-> "convert_text", u |-> P(i, 6, << "foo", "kgx", "m/foo", "qm", "Q", "m-1", "kk", "3m" >>), w |-> P(i, 7, << "m", "s", "T/m" >>), v |-> One],
              ans |-> [k |-> "err", exc |-> <<"UnitError">>]]
  IN IF D(i, 8, 40) = 0
     THEN << [call |-> [m |-> "convert_text", u |-> "Hz", w |-> "Bark", v |-> fz], ans |-> [k |-> "ok", v |-> Bark(fz)]],
             [call |-> [m |-> "convert_text", u |-> "Bark", w |-> "Hz", v |-> Bark(fz)], ans |-> [k |-> "ok", v |-> fz]] >>
     ELSE IF D(i, 8, 40) = 1 THEN <<bad>>
     ELSE IF D(i, 8, 40) = 2
     THEN LET t == P(i, 9, Texts) IN << [call |-> [m |-> "convert_text", u |-> t[1], w |-> t[2], v |-> I(3)], ans |-> [k |-> "ok", v |-> RMul(I(3), t[3])]] >>
     ELSE <<c(p[1], p[2]), c(p[2], p[1])>>
K == Budget(6000, 60000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} : LET s == TLCEval(CallsI(i)) IN
       log' = s /\ heap' = <<>> /\ cid' = i /\ Write([id |-> i, objs |-> <<>>, steps |-> s])
Spec == Init /\ [][Next]_vars

\* going and coming back is the identity
Inverts == log # <<>> /\ log[1].call.m = "convert" /\ log[1].ans.k = "ok" =>
  VAdd(log[1].ans.q, log[2].ans.q) = <<0, 0, 0, 0>>
SameRefusal == log # <<>> /\ log[1].call.m = "convert" => log[1].ans.k = log[2].ans.k
\* no two readings of a prefix followed by a symbol
Spellings == { Prefixes[p][1] \o Symbols[s][1] : p \in 1..Len(Prefixes), s \in 2..NSym }
ASSUME Cardinality(Spellings) = Len(Prefixes) * (NSym - 1)
\* the Bark scale increases
ASSUME \A j \in 0..20 : RLt(Bark(I(1960 * j)), Bark(I(1960 * (j + 1))))
=============================================================================

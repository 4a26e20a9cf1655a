------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Units: a physical dimension (exponents of mass, length, time,           *)
(* temperature, angle, current) and a scale 2^a 3^b 10^t pi^e, written      *)
(* <<a, b, t, e>>.                                                         *)
(***************************************************************************)
EXTENDS Num

Dim0 == <<0, 0, 0, 0, 0, 0>>
\* symbol table: name, scale, dimension <<M, L, T, Temp, Angle, I>>
Symbols == <<
  <<"dimless", <<0, 0, 0, 0>>, Dim0>>,
  <<"degC", <<0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0>>>>,
  <<"rad", <<0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0>>>>,
  <<"°", <<-1, -2, -1, 1>>, <<0, 0, 0, 0, 1, 0>>>>,
  <<"rpm", <<0, -1, -1, 1>>, <<0, 0, -1, 0, 1, 0>>>>,
  <<"min", <<1, 1, 1, 0>>, <<0, 0, 1, 0, 0, 0>>>>,
  <<"Ohm", <<0, 0, 0, 0>>, <<1, 2, -3, 0, 0, -2>>>>,
  <<"At", <<0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1>>>>,
  <<"Wb", <<0, 0, 0, 0>>, <<1, 2, -2, 0, 0, -1>>>>,
  <<"Mx", <<0, 0, -8, 0>>, <<1, 2, -2, 0, 0, -1>>>>,
  <<"Hz", <<0, 0, 0, 0>>, <<0, 0, -1, 0, 0, 0>>>>,
  <<"Pa", <<0, 0, 0, 0>>, <<1, -1, -2, 0, 0, 0>>>>,
  <<"g", <<0, 0, -3, 0>>, <<1, 0, 0, 0, 0, 0>>>>,
  <<"s", <<0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0>>>>,
  <<"h", <<2, 2, 2, 0>>, <<0, 0, 1, 0, 0, 0>>>>,
  <<"A", <<0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1>>>>,
  <<"J", <<0, 0, 0, 0>>, <<1, 2, -2, 0, 0, 0>>>>,
  <<"W", <<0, 0, 0, 0>>, <<1, 2, -3, 0, 0, 0>>>>,
  <<"N", <<0, 0, 0, 0>>, <<1, 1, -2, 0, 0, 0>>>>,
  <<"C", <<0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 1>>>>,
  <<"T", <<0, 0, 0, 0>>, <<1, 0, -2, 0, 0, -1>>>>,
  <<"G", <<0, 0, -4, 0>>, <<1, 0, -2, 0, 0, -1>>>>,
  <<"V", <<0, 0, 0, 0>>, <<1, 2, -3, 0, 0, -1>>>>,
  <<"F", <<0, 0, 0, 0>>, <<-1, -2, 4, 0, 0, 2>>>>,
  <<"H", <<0, 0, 0, 0>>, <<1, 2, -2, 0, 0, -2>>>>,
  <<"m", <<0, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0>>>> >>
Prefixes == <<
  <<"", 0>>, <<"Y", 24>>, <<"Z", 21>>, <<"E", 18>>, <<"P", 15>>, <<"T", 12>>, <<"G", 9>>,
  <<"M", 6>>, <<"k", 3>>, <<"h", 2>>, <<"da", 1>>, <<"d", -1>>, <<"c", -2>>, <<"m", -3>>,
  <<"µ", -6>>, <<"u", -6>>, <<"μ", -6>>, <<"n", -9>>, <<"p", -12>>, <<"f", -15>>, <<"a", -18>>,
  <<"z", -21>>, <<"y", -24>> >>

\* an atom: prefix index, symbol index, power; a unit expression: atom or atom/atom
Atom(p, s, k) == [p |-> p, s |-> s, k |-> k]
VAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
VMul(k, x) == [i \in 1..Len(x) |-> k * x[i]]
AtomScale(a) ==
  LET s == Symbols[a.s] IN
  [q |-> VMul(a.k, VAdd(s[2], <<0, 0, Prefixes[a.p][2], 0>>)), d |-> VMul(a.k, s[3])]
Unity == [q |-> <<0, 0, 0, 0>>, d |-> Dim0]
ProdScale(x, y) == [q |-> VAdd(x.q, y.q), d |-> VAdd(x.d, y.d)]
QuotScale(x, y) == ProdScale(x, [q |-> VMul(-1, y.q), d |-> VMul(-1, y.d)])

(* units used on axes and fields of the scenarios, by spelling *)
SymIdx(n) == CHOOSE i \in 1..Len(Symbols) : Symbols[i][1] = n
PreIdx(n) == CHOOSE i \in 1..Len(Prefixes) : Prefixes[i][1] = n
NamedUnits ==
  [u \in {"", "dimless", "s", "ms", "min", "h", "rad", "°", "m", "mm", "cm", "km", "Hz", "kHz", "T", "mT", "G",
          "A", "mA", "V", "N", "kN", "Pa", "W", "kW", "rpm", "degC"} |->
     CASE u \in {"", "dimless"} -> Unity
       [] u = "ms" -> AtomScale(Atom(PreIdx("m"), SymIdx("s"), 1))
       [] u = "mm" -> AtomScale(Atom(PreIdx("m"), SymIdx("m"), 1))
       [] u = "cm" -> AtomScale(Atom(PreIdx("c"), SymIdx("m"), 1))
       [] u = "km" -> AtomScale(Atom(PreIdx("k"), SymIdx("m"), 1))
       [] u = "kHz" -> AtomScale(Atom(PreIdx("k"), SymIdx("Hz"), 1))
       [] u = "mT" -> AtomScale(Atom(PreIdx("m"), SymIdx("T"), 1))
       [] u = "mA" -> AtomScale(Atom(PreIdx("m"), SymIdx("A"), 1))
       [] u = "kN" -> AtomScale(Atom(PreIdx("k"), SymIdx("N"), 1))
       [] u = "kW" -> AtomScale(Atom(PreIdx("k"), SymIdx("W"), 1))
       [] OTHER -> AtomScale(Atom(1, SymIdx(u), 1))]
Known(u) == u \in DOMAIN NamedUnits
Convertible(u, w) == Known(u) /\ Known(w) /\ NamedUnits[u].d = NamedUnits[w].d
RECURSIVE RPow(_, _)
RPow(b, t) == IF t = 0 THEN One ELSE IF t > 0 THEN RMul(I(b), RPow(b, t - 1)) ELSE RMul(<<1, b>>, RPow(b, t + 1))
Ratio(q) == RMul(RMul(RPow(2, q[1]), RPow(3, q[2])), RPow(10, q[3]))
Factor(u, w) ==
  LET q == QuotScale(NamedUnits[u], NamedUnits[w]).q IN [r |-> Ratio(q), e |-> q[4]]
=============================================================================

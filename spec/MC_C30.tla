------------------------------- MODULE MC_C30 -------------------------------
(* Points and components of vectors, cartesian and cylindrical.              *)
EXTENDS ScenV

PhiD(i, b, wide) ==
  LET q == P(i, b, << Zero, <<1, 12>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<2, 3>>, One, <<7, 6>>, <<5, 4>>, <<3, 2>>, <<11, 6>>, <<7, 4>>, <<1, 8>> >>)
  IN IF wide THEN RAdd(q, I(2 * (D(i, b + 1, 3) - 1))) ELSE q
RatD(i, b) == P(i, b, << Zero, One, I(-2), <<3, 4>>, <<-5, 2>>, I(100), <<1, 64>>, I(7) >>)
RadD(i, b) == P(i, b, << Zero, One, I(2), <<3, 4>>, <<5, 2>>, I(100), <<1, 64>> >>)
Points(i, n, wide) == [j \in 1..n |-> [r |-> RadD(i, 10 * j), p |-> PhiD(i, 10 * j + 1, wide), z |-> RatD(i, 10 * j + 3)]]
\* components a, b turned by the angle: s = 1 to cartesian ones, -1 to cylindrical ones
TurnBy(a, b, p, s) == <<Simp(Sub(Mul(a, CosPi(p)), Mul(I(s), Mul(b, SinPi(p))))), Simp(Add(Mul(I(s), Mul(a, SinPi(p))), Mul(b, CosPi(p))))>>
XY(P0) == TLCEval([j \in 1..Len(P0) |-> TurnBy(P0[j].r, Zero, P0[j].p, 1)])
Kinds == << "xyz_to_rphiz", "rphiz_to_xyz", "rphi_to_xyz", "xy_to_rphi", "rphi_to_xy", "xyz_to_rphiz_field", "rphiz_to_xyz_field", "cart2pol", "pol2cart" >>
Cols(S, n) == TLCEval([k \in 1..n |-> [j \in 1..Len(S) |-> S[j][k]]])
CaseC(i) ==
  LET kind == P(i, 1, Kinds) n == 1 + D(i, 2, 6)
      pts == TLCEval(Points(i, n, kind \in {"rphiz_to_xyz", "rphi_to_xyz", "rphi_to_xy"})) xy == XY(pts)
      \* components over a grid, the angle along dimension d
      nd == 1 + D(i, 3, 3) d == 1 + D(i, 4, nd) sh == TLCEval([k \in 1..nd |-> 1 + D(i, 4 + k, 3)])
      size == Prod(sh) grid == kind \in {"cart2pol", "pol2cart"} m == IF grid THEN size ELSE n
      ph == TLCEval([k \in 1..(IF grid THEN sh[d] ELSE n) |-> PhiD(i, 200 + 2 * k, TRUE)])
      a == TLCEval([j \in 1..m |-> RatD(i, 300 + j)]) b == TLCEval([j \in 1..m |-> RatD(i, 400 + j)]) c == TLCEval([j \in 1..m |-> RatD(i, 500 + j)])
      at(j) == IF grid THEN ph[Unflat(sh, j)[d]] ELSE ph[j]
      s == IF kind \in {"rphiz_to_xyz_field", "pol2cart"} THEN 1 ELSE -1
      uv == TLCEval([j \in 1..m |-> TurnBy(a[j], b[j], at(j), s)])
      r == [j \in 1..n |-> pts[j].r] p == [j \in 1..n |-> pts[j].p] z == [j \in 1..n |-> pts[j].z]
      call == [m |-> "coordinates", o |-> 0, f |-> kind, a |-> a, b |-> b, c |-> c, phi |-> ph, sh |-> IF grid THEN sh ELSE <<m>>, d |-> d - 1]
      pcall == [m |-> "coordinates", o |-> 0, f |-> kind, r |-> r, p |-> p, z |-> z, xy |-> Cols(xy, 2)]
  IN IF kind \in {"xyz_to_rphiz", "xy_to_rphi"} THEN <<pcall, [k |-> "ok", r |-> r, p |-> p, z |-> z]>>
     ELSE IF kind \in {"rphiz_to_xyz", "rphi_to_xyz", "rphi_to_xy"} THEN <<pcall, [k |-> "ok", cols |-> Cols(xy, 2) \o (IF kind = "rphiz_to_xyz" THEN <<z>> ELSE <<>>)]>>
     ELSE <<call, [k |-> "ok", cols |-> Cols(uv, 2) \o (IF grid THEN <<>> ELSE <<c>>)]>>
K == Budget(1500, 15000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET s == TLCEval(CaseC(i)) st == <<[call |-> s[1], ans |-> s[2]]>> IN
  /\ log' = st /\ heap' = heap /\ cid' = i
  /\ Write([id |-> i, objs |-> <<>>, steps |-> st])
Spec == Init /\ [][Next]_vars

\* turned vectors keep their length and turn back to the same vector
Same0(x, y) == LET e == Simp(Sub(x, y)) IN IsNum(e) => CIsZero(e)
Keeps == \A k \in 1..Len(log) : "cols" \in DOMAIN log[k].ans /\ "a" \in DOMAIN log[k].call =>
  LET c == log[k].call u == log[k].ans.cols[1] v == log[k].ans.cols[2] IN
  \A j \in 1..Len(u) : Same0(Add(Mul(u[j], u[j]), Mul(v[j], v[j])), RAdd(RMul(c.a[j], c.a[j]), RMul(c.b[j], c.b[j])))
=============================================================================

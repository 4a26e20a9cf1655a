-------------------------------- MODULE Vec ---------------------------------
(***************************************************************************)
(* Vector fields: components <<[key, f], ...>> over the same axes, either  *)
(* cylindrical (radial, tangential) or cartesian (comp_x, comp_y); the     *)
(* third one is axial or comp_z.  Components that are absent are zero.     *)
(***************************************************************************)
EXTENDS Harm

Cyl == <<"radial", "tangential", "axial">>
Cart == <<"comp_x", "comp_y", "comp_z">>
MkVec(name, sym, comps) == [cls |-> "VectorField", name |-> name, sym |-> sym, comps |-> comps]
IsVec(o) == "cls" \in DOMAIN o /\ o.cls = "VectorField"
Keys(V) == {V.comps[k].key : k \in 1..Len(V.comps)}
Comp(V, key) == V.comps[CHOOSE k \in 1..Len(V.comps) : V.comps[k].key = key].f
InPlane(names) == {names[1], names[2]}
InRep(V, names) == InPlane(names) \cap Keys(V) # {}
AxisAt(f, name) == {d \in 1..Len(f.axes) : f.axes[d].name = name}

\* cosine and sine of pi * q
CosPi(q) == Simp(CAdd(Root(2 * q[2], q[1], <<1, 2>>), Root(2 * q[2], -q[1], <<1, 2>>)))
SinPi(q) == Simp(CTurn(CAdd(Root(2 * q[2], q[1], <<1, 2>>), Root(2 * q[2], -q[1], <<-1, 2>>)), 4, 3))
\* the same field with its angle axis stored in full
OpenAngle(f, d) ==
  LET A == LineMap([sh |-> StoredShape(f), v |-> f.val], d, LAMBDA l : FullLine(f.axes[d], l))
  IN [f EXCEPT !.axes = [@ EXCEPT ![d] = Expand(@)], !.val = A.v, !.ints = FALSE]
\* p, q: the first two components (fields or absent), turned by the angle (s = 1: to cartesian, -1: to cylindrical)
Turned(p, q, has1, has2, s, d) ==
  LET f == IF has1 THEN p ELSE q sh == StoredShape(f) ph == f.axes[d].x
      c == TLCEval([k \in 1..Len(ph) |-> CosPi(ph[k])]) w == TLCEval([k \in 1..Len(ph) |-> Mul(I(s), SinPi(ph[k]))])
      a(j) == IF has1 THEN p.val[j] ELSE Zero b(j) == IF has2 THEN q.val[j] ELSE Zero
      at == TLCEval([j \in 1..Len(f.val) |-> Unflat(sh, j)[d]])
  IN <<[f EXCEPT !.ints = FALSE, !.val = TLCEval([j \in 1..Len(f.val) |-> Simp(Sub(Mul(a(j), c[at[j]]), Mul(b(j), w[at[j]])))])],
       [f EXCEPT !.ints = FALSE, !.val = TLCEval([j \in 1..Len(f.val) |-> Simp(Add(Mul(a(j), w[at[j]]), Mul(b(j), c[at[j]])))])]>>
Zth(V) == {"axial", "comp_z"} \cap Keys(V)
\* a component sampled along the angle
InSpace(f) == IF f.cls = "DataFreq" /\ AxisAt(f, "wavenumber") # {} THEN TimeField(f) ELSE f
CanSpace(f) == /\ \A d \in 1..Len(f.axes) : (f.cls = "DataFreq" /\ AxisAt(f, "wavenumber") # {} /\ IsSpectral(f.axes[d])) => Regular(f.axes[d], f.real)
               /\ LET g == InSpace(f) IN AxisAt(g, "angle") # {} /\ \A d \in AxisAt(g, "angle") : g.axes[d].e = 1 /\ ~g.axes[d].pat.on
Angle(f) == CHOOSE d \in AxisAt(f, "angle") : TRUE
Pair(V, names, opened) ==
  LET other == IF names = Cart THEN Cyl ELSE Cart
      h1 == other[1] \in Keys(V) h2 == other[2] \in Keys(V)
      g(n) == LET f == TLCEval(InSpace(Comp(V, n))) IN IF opened THEN OpenAngle(f, Angle(f)) ELSE f
      p == IF h1 THEN TLCEval(g(other[1])) ELSE Zero q == IF h2 THEN TLCEval(g(other[2])) ELSE Zero
  IN Turned(p, q, h1, h2, IF names = Cart THEN 1 ELSE -1, Angle(IF h1 THEN p ELSE q))
\* parts of a reduced angle axis are parts of the whole one
StoredPart(V, f, reqs) ==
  [j \in 1..Len(reqs) |->
     LET r == reqs[j] a == f.axes[Angle(f)] IN
     IF r.ax # "angle" \/ r.f \notin {"one", "small", "anti"} \/ (r.f = "anti" /\ a.sym.t # "aper") THEN r
     ELSE [Range("angle", 0, PartLen(a, r.f)) EXCEPT !.u = r.u, !.arrow = r.arrow]]
\* the three components of an answer; absent ones are zero
VecAnswer(V, names, reqs, u, sq, mag) ==
  LET z == Zth(V)
      ans(f, rs) == IF mag THEN MagAnswer(f, rs, u, TRUE) ELSE Answer(f, rs, u, sq)
      own == InRep(V, names) turn == ~own /\ InRep(V, IF names = Cart THEN Cyl ELSE Cart)
      f0 == Comp(V, CHOOSE k \in Keys(V) : TRUE)
      pr == TLCEval(IF turn THEN Pair(V, names, TRUE) ELSE <<>>)
      rp == TLCEval(IF turn THEN StoredPart(V, InSpace(f0), reqs) ELSE reqs)
      one(k) == IF own /\ names[k] \in Keys(V) THEN ans(Comp(V, names[k]), reqs)
                ELSE IF turn THEN ans(pr[k], rp) ELSE [k |-> "zero"]
      fz == Comp(V, CHOOSE n \in z : TRUE)
      whole(f) == LET g == TLCEval(InSpace(f)) IN OpenAngle(g, Angle(g))
      r == TLCEval(<<one(1), one(2), IF z = {} THEN [k |-> "zero"] ELSE IF turn THEN ans(whole(fz), rp) ELSE ans(fz, reqs)>>)
      given == SelectSeq(<<1, 2, 3>>, LAMBDA k : r[k].k # "zero")
      m == r[given[1]]
  IN IF given = <<>> THEN Bad("err")
     ELSE IF \E k \in {given[j] : j \in 1..Len(given)} : r[k].k = "err" THEN Bad("err")
     ELSE IF \E k \in {given[j] : j \in 1..Len(given)} : r[k].k # "ok" THEN Bad("unspec")
     ELSE [k |-> "ok", axes |-> m.axes,
           comps |-> [k \in 1..3 |-> [n |-> names[k], sh |-> m.sh, v |-> IF r[k].k = "zero" THEN [j \in 1..Len(m.v) |-> Zero] ELSE r[k].v]]]
\* tables of the largest harmonics of the three components; absent ones are zero
VecHarmonics(V, names, reqs, u, n) ==
  LET z == Zth(V)
      own == InRep(V, names) turn == ~own /\ InRep(V, IF names = Cart THEN Cyl ELSE Cart)
      f0 == Comp(V, CHOOSE k \in Keys(V) : TRUE)
      pr == TLCEval(IF turn THEN Pair(V, names, TRUE) ELSE <<>>)
      rp == TLCEval(IF turn THEN StoredPart(V, InSpace(f0), reqs) ELSE reqs)
      one(k) == IF own /\ names[k] \in Keys(V) THEN Harmonics(Comp(V, names[k]), reqs, u, n)
                ELSE IF turn THEN Harmonics(pr[k], rp, u, n) ELSE [k |-> "zero"]
      fz == Comp(V, CHOOSE q \in z : TRUE)
      whole(f) == LET g == TLCEval(InSpace(f)) IN OpenAngle(g, Angle(g))
      r == TLCEval(<<one(1), one(2), IF z = {} THEN [k |-> "zero"] ELSE Harmonics(IF turn THEN whole(fz) ELSE fz, rp, u, n)>>)
      given == SelectSeq(<<1, 2, 3>>, LAMBDA k : r[k].k # "zero")
  IN IF given = <<>> THEN Bad("err")
     ELSE IF \E j \in 1..Len(given) : r[given[j]].k = "err" THEN Bad("err")
     ELSE IF \E j \in 1..Len(given) : r[given[j]].k # "ok" THEN Bad("unspec")
     \* the coordinates of the table are those of one of the components there are
     ELSE [k |-> "ok", n |-> n, names |-> r[given[1]].names,
           comps |-> [k \in 1..3 |-> [n |-> names[k], given |-> r[k].k # "zero", tab |-> IF r[k].k = "zero" THEN [j \in 1..Len(r[given[1]].tab) |-> [r[given[1]].tab[j] EXCEPT !.v = Zero]] ELSE r[k].tab]]]
CanTurn(V, names) == InRep(V, names) \/ ~InRep(V, IF names = Cart THEN Cyl ELSE Cart) \/ \A k \in 1..Len(V.comps) : CanSpace(V.comps[k].f)
VecAlong(V, c) ==
  LET names == IF c.rep = "xyz" THEN Cart ELSE Cyl
      src == IF "src" \in DOMAIN V THEN V.src ELSE V          \* the field a reduced conversion stands for
      \* lines that are not asked for are not stated once the field is sampled again
      lost == \E d \in 1..Len(src.comps[1].f.axes) : LET n == src.comps[1].f.axes[d].name IN
                n = "freqs" /\ ~InRep(src, names) /\ ~\E j \in 1..Len(c.reqs) : c.reqs[j].ax \in {n, DirectOf(n)}
      r == TLCEval(IF ~CanTurn(src, names) \/ lost THEN Bad("unspec")
                   ELSE IF c.m = "vec_harm" THEN VecHarmonics(src, names, c.reqs, c.u, c.n)
                   ELSE VecAnswer(src, names, c.reqs, c.u, c.sq, c.mag))
  IN IF "src" \in DOMAIN V THEN r @@ [tag |-> "turned on a reduced angle axis"] ELSE r

(* ------------------------------ conversions ----------------------------- *)
Converted(V, rep) ==
  LET names == IF rep = "xyz" THEN Cart ELSE Cyl z == Zth(V)
      third == IF z = {} THEN <<>> ELSE <<[key |-> names[3], f |-> Comp(V, CHOOSE n \in z : TRUE)]>>
      pr == TLCEval(Pair(V, names, FALSE))
      f == Comp(V, CHOOSE k \in Keys(V) : TRUE)
      W == MkVec(V.name, V.sym, <<[key |-> names[1], f |-> pr[1]], [key |-> names[2], f |-> pr[2]]>> \o third)
  IN IF InRep(V, names) THEN V
     ELSE IF ~InRep(V, IF names = Cart THEN Cyl ELSE Cart) THEN MkVec(V.name, V.sym, third)
     \* the angle axis keeps its symmetry, which the turned components have not
     ELSE IF f.axes[Angle(f)].sym.t = "none" THEN W
     ELSE IF "src" \notin DOMAIN V THEN W @@ [src |-> V]
     ELSE IF InRep(V.src, names) THEN W ELSE W @@ [src |-> V.src]
EachComp(V, F(_)) == MkVec(V.name, V.sym, TLCEval([k \in 1..Len(V.comps) |-> [key |-> V.comps[k].key, f |-> F(V.comps[k].f)]]))
VecExtract(V, reqs, u) ==
  LET r == TLCEval([k \in 1..Len(V.comps) |-> Extracted(V.comps[k].f, reqs, u)]) IN
  IF \E k \in 1..Len(r) : r[k].k = "err" THEN Bad("err")
  ELSE IF \E k \in 1..Len(r) : r[k].k # "ok" \/ r[k].f.ud # <<>> THEN Bad("unspec")
  ELSE [k |-> "obj", obj |-> MkVec(V.name, V.sym, [k \in 1..Len(r) |-> [key |-> V.comps[k].key, f |-> r[k].f]])]
=============================================================================

-------------------------------- MODULE SDT ---------------------------------
(***************************************************************************)
(* The system as a state machine.                                          *)
(*   cid   which scenario (initial heap, repertoire of calls)              *)
(*   heap  sequence of live objects                                        *)
(*   log   calls made so far with their answers                            *)
(* Queries leave the heap unchanged; extractions and transforms append     *)
(* new objects.                                                            *)
(***************************************************************************)
EXTENDS Rot, Emit
VARIABLES cid, heap, log
vars == <<cid, heap, log>>

Seed == EnvInt("VERIF_SEED")
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Budget(q, t) == LET k == EnvInt("SDT_CASES") IN IF k > 0 THEN k ELSE IF Thorough THEN t ELSE q

Take(o, reqs, u) == [m |-> "get_data_along", o |-> o, reqs |-> reqs, u |-> u]
Get(o, reqs) == [m |-> "get_along", o |-> o, reqs |-> reqs, u |-> "", sq |-> TRUE]

On(m, o) == [m |-> m, o |-> o]
\* a new object: the record and the whole coordinates of its axes
NewObj(f) == [k |-> "obj", obj |-> f, full |-> [d \in 1..Len(f.axes) |-> FullX(f.axes[d])]]
\* the unit of a derived field is that of the expression uexp, however it is written
NewDerived(f) == [k |-> "obj", obj |-> f, full |-> [d \in 1..Len(f.axes) |-> FullX(f.axes[d])], uexp |-> Spell(f.unum, f.uden, f.ud)]
NewVec(V) == [k |-> "obj", obj |-> V, parts |-> TLCEval([k \in 1..Len(V.comps) |-> NewObj(V.comps[k].f)])]
NewAxis(a) == [k |-> "obj", obj |-> a, full |-> FullX(a)]
\* a dual field has a direct side t and a spectral side f; a request goes to one of them
IsDual(o) == "cls" \in DOMAIN o /\ o.cls = "DataDual"
Dual(t, f) == [cls |-> "DataDual", t |-> t, f |-> f]
Side(o, reqs) == IF ~IsDual(o) THEN o
                 ELSE IF \E j \in 1..Len(reqs) : reqs[j].ax \in {"freqs", "wavenumber"} THEN o.f ELSE o.t
\* the other side of a dual field when it is not given
DualOf(o) == IF o.cls = "DataFreq" THEN Dual(TimeField(o), o) ELSE Dual(o, FreqField(o))
DualWith(o, p) == IF o.cls = "DataFreq" THEN Dual(p, o) ELSE Dual(o, p)
\* components whose items are all wanted; one list of items per key; part: the items of every component
Filtered(a, want) ==
  LET keys == {a.keys[j].key : j \in 1..Len(a.keys)}
      asked == {want[j].key : j \in 1..Len(want)}
      holds(k) == {a.keys[k].items[j] : j \in 1..Len(a.keys[k].items)}
      wanted(key) == UNION {{want[j].items[m] : m \in 1..Len(want[j].items)} : j \in {j \in 1..Len(want) : want[j].key = key}}
      keyOf(item) == a.keys[CHOOSE k \in 1..Len(a.keys) : item \in holds(k)].key
  IN IF keys # asked \/ \E j \in 1..Len(a.part) : Len(a.part[j]) # Len(a.keys)
          \/ \E m \in 1..Len(a.part[j]) : \A k \in 1..Len(a.keys) : a.part[j][m] \notin holds(k) THEN Bad("err")
     ELSE [k |-> "ok", ns |-> [j \in 1..Len(a.part) |-> IF \A m \in 1..Len(a.part[j]) : a.part[j][m] \in wanted(keyOf(a.part[j][m])) THEN 1 ELSE 0]]
(* ------------------------------ comparisons ----------------------------- *)
\* the answers of several fields, and for every requested axis what is known of the common coordinates
OwnAnswer(kind, o, reqs, u) ==
  CASE kind = "plain" -> Answer(o, reqs, u, FALSE)
    [] kind = "mag" -> MagAnswer(o, reqs, u, FALSE)
    [] OTHER -> Answer(o, reqs, "", FALSE)
SameAxis(p, q) == p.t = q.t /\ p.op = q.op /\ p.e = q.e /\ p.x = q.x /\ p.lab = q.lab
Overlap(xs) ==      \* range common to several coordinates, and the least number of samples in it
  LET lo == MaxSeq([k \in 1..Len(xs) |-> xs[k][1]]) hi == MinSeq([k \in 1..Len(xs) |-> xs[k][Len(xs[k])]])
      n(k) == Len(Within(xs[k], lo, hi))
  IN [lo |-> lo, hi |-> hi, n |-> CHOOSE m \in {n(k) : k \in 1..Len(xs)} : \A k \in 1..Len(xs) : m <= n(k)]
Compared(h, c) ==
  LET ks == <<c.o>> \o c.others
      r == TLCEval([k \in 1..Len(ks) |-> OwnAnswer(c.kind, h[ks[k]], c.reqs, c.u)])
      ax(k, j) == CHOOSE q \in 1..Len(r[k].axes) : r[k].axes[q].n = r[1].axes[j].n     \* the same axis in another field
      x(k, j) == r[k].axes[ax(k, j)]
      same(j) == \A k \in 2..Len(ks) : SameAxis(r[1].axes[j], x(k, j))
      over(j) == Overlap([k \in 1..Len(ks) |-> x(k, j).x])
      dim(k, j) == CHOOSE d \in 1..Len(h[ks[k]].axes) :
                     LET a == h[ks[k]].axes[d].name IN a = r[1].axes[j].n \/ SpectralOf(a) = r[1].axes[j].n \/ DirectOf(a) = r[1].axes[j].n
  IN IF \E k \in 1..Len(ks) : r[k].k = "err" THEN Bad("err")
     ELSE IF \E k \in 1..Len(ks) : r[k].k # "ok" THEN Bad("unspec")
     ELSE IF \E k \in 1..Len(ks) : {r[k].axes[j].n : j \in 1..Len(r[k].axes)} # {r[1].axes[j].n : j \in 1..Len(r[1].axes)} THEN Bad("unspec")
     ELSE IF \E j \in 1..Len(r[1].axes) : ~same(j) /\
               \/ r[1].axes[j].t # "x"
               \/ \E k \in 1..Len(ks) : x(k, j).t # "x" \/ x(k, j).e # r[1].axes[j].e \/ Len(x(k, j).x) < 2 \/ ~Increasing(x(k, j).x)
               \/ over(j).n < 2 THEN Bad("unspec")
     ELSE [k |-> "ok", kind |-> c.kind,
           axes |-> TLCEval([j \in 1..Len(r[1].axes) |-> r[1].axes[j] @@ [same |-> same(j), over |-> IF same(j) THEN [n |-> 0] ELSE over(j)]]),
           parts |-> TLCEval([k \in 1..Len(ks) |-> [sh |-> r[k].sh, v |-> r[k].v,
                        own |-> TLCEval([j \in 1..Len(r[1].axes) |-> [x |-> x(k, j).x, dim |-> dim(k, j)]])]])]
(* -------------------------------- exports ------------------------------- *)
\* axes of an answer with several samples; files, lines and columns follow them (third, first, second)
Several(a) == Len(a.x) > 1 \/ Len(a.lab) > 1
AsksSpectrum(reqs) == \E j \in 1..Len(reqs) : reqs[j].ax \in {"freqs", "wavenumber"}
\* units an axis may be said to have ("" and dimless are the same)
UnitNamed(o, reqs, n) ==
  LET r == reqs[CHOOSE j \in 1..Len(reqs) : reqs[j].ax = n] S == {d \in 1..Len(o.axes) : o.axes[d].name = n}
  IN IF r.u \notin {"", "SI"} THEN r.u
     ELSE IF S # {} THEN o.axes[CHOOSE d \in S : TRUE].unit
     ELSE CASE n = "freqs" -> "Hz" [] n = "time" -> "s" [] n = "angle" -> "rad" [] OTHER -> ""
Exported(o, c) ==
  LET a == TLCEval(IF AsksSpectrum(c.reqs) \/ (c.flat /\ IsLevel(c.u)) THEN MagAnswer(o, c.reqs, c.u, TRUE)
                   ELSE IF c.u = "dB" THEN PlainLevel(o, c.reqs, TRUE) ELSE Answer(o, c.reqs, c.u, TRUE))
      S == SelectSeq(SeqOf(Len(a.axes)), LAMBDA j : Several(a.axes[j]))
      ax(k) == a.axes[S[k]]
      size(k) == IF k > Len(S) THEN 1 ELSE IF ax(k).t = "lab" THEN Len(ax(k).lab) ELSE Len(ax(k).x)
      cell(i, j, k) == a.v[((i - 1) * size(2) + (j - 1)) * size(3) + k]
  IN IF a.k # "ok" THEN a
     ELSE IF S = <<>> \/ (c.u = "dBA" /\ ~AsksSpectrum(c.reqs)) THEN Bad("unspec")
     \* curves show the wavenumbers from zero on, hide zero levels; files are named after the third coordinate
     ELSE IF c.flat /\ (IsLevel(c.u) \/ \E j \in 1..Len(c.reqs) : c.reqs[j].ax = "wavenumber") THEN Bad("unspec")
     ELSE IF Len(S) = 3 /\ \E j, k \in 1..size(3) : j < k /\ (IF ax(3).t = "lab" THEN ax(3).lab[j] = ax(3).lab[k] ELSE ax(3).x[j] = ax(3).x[k]) THEN Bad("unspec")
     ELSE IF Len(S) > 3 \/ (Len(S) = 3 /\ ~c.multi) THEN Bad("err")
     ELSE [k |-> "ok", unit |-> IF c.u \in {"", "SI"} THEN o.unit ELSE c.u, ref |-> LevelRef(o), own |-> o.unit,
           axes |-> [k \in 1..Len(S) |-> ax(k) @@ [u |-> UnitNamed(o, c.reqs, ax(k).n)]],
           files |-> TLCEval([k \in 1..size(3) |-> [sh |-> <<size(1), size(2)>>,
              v |-> [q \in 1..(size(1) * size(2)) |-> cell(((q - 1) \div size(2)) + 1, ((q - 1) % size(2)) + 1, k)]]])]
(* --------------------------------- plots -------------------------------- *)
\* spectra along wavenumbers are drawn from zero on
Drawn(reqs) == [j \in 1..Len(reqs) |-> IF reqs[j] = Whole("wavenumber") THEN Gt("wavenumber", Zero) ELSE reqs[j]]
DimOf(o, n) == CHOOSE d \in 1..Len(o.axes) : LET a == o.axes[d].name IN a = n \/ SpectralOf(a) = n \/ DirectOf(a) = n
PlotAnswer(o, reqs, u) == IF AsksSpectrum(reqs) \/ IsLevel(u) THEN MagAnswer(o, reqs, u, FALSE) ELSE Answer(o, reqs, u, FALSE)
OutOf(a, n) == a.axes[CHOOSE j \in 1..Len(a.axes) : a.axes[j].n = n]
\* entries of a with index p along dimension d and q along dimension e (0: none), first elsewhere
EntryAt(a, d, p, e, q) == a.v[FlatOf(a.sh, [k \in 1..Len(a.sh) |-> IF k = d THEN p ELSE IF k = e THEN q ELSE 1])]
PlainOut(a) == \A j \in 1..Len(a.v) : IsNum(a.v[j]) \/ a.v[j] \notin {NaN, Free}
Realish(a) == \A j \in 1..Len(a.v) : ~IsCyc(a.v[j])
\* curves over the first requested axis, one per field and per entry of the axis asked by a list
Curves(h, c) ==
  LET ks == <<c.o>> \o c.others
      reqs == Drawn(c.reqs)
      r == TLCEval([k \in 1..Len(ks) |-> PlotAnswer(h[ks[k]], reqs, c.u)])
      lists == {j \in 2..Len(reqs) : reqs[j].f = "idx" /\ Len(reqs[j].ns) > 1}
      n == reqs[1].ax
      main(k) == OutOf(r[k], n)
      size(k) == IF main(k).t = "lab" THEN Len(main(k).lab) ELSE Len(main(k).x)
      d1(k) == DimOf(h[ks[k]], n)
      over == IF lists = {} THEN 1 ELSE Len(reqs[CHOOSE j \in lists : TRUE].ns)
      d2(k) == IF lists = {} THEN 0 ELSE DimOf(h[ks[k]], reqs[CHOOSE j \in lists : TRUE].ax)
      curve(k, q) == [x |-> main(k), y |-> [p \in 1..size(k) |-> EntryAt(r[k], d1(k), p, d2(k), q)]]
  IN IF \E k \in 1..Len(ks) : r[k].k = "err" THEN Bad("err")
     ELSE IF \E k \in 1..Len(ks) : r[k].k # "ok" \/ ~PlainOut(r[k]) \/ ~Realish(r[k]) THEN Bad("unspec")
     ELSE IF Cardinality(lists) > 1 \/ \E k \in 1..Len(ks) : \/ main(k).t = "op" \/ size(k) < 2
                 \/ \E d \in 1..Len(r[k].sh) : r[k].sh[d] # 1 /\ d \notin {d1(k), d2(k)} THEN Bad("unspec")
     ELSE [k |-> "ok", unit |-> IF c.u \in {"", "SI", "->"} THEN h[c.o].unit ELSE c.u, level |-> IsLevel(c.u), bars |-> AsksSpectrum(reqs),
           u |-> UnitNamed(h[c.o], c.reqs, n), names |-> [k \in 1..Len(ks) |-> h[ks[k]].name],
           list |-> IF lists = {} THEN <<>> ELSE [k \in 1..Len(ks) |-> OutOf(r[k], reqs[CHOOSE j \in lists : TRUE].ax)],
           curves |-> TLCEval([m \in 1..(Len(ks) * over) |-> curve(((m - 1) \div over) + 1, ((m - 1) % over) + 1)])]
\* a map over the two first requested axes
Mapped(o, c) ==
  LET r == TLCEval(PlotAnswer(o, c.reqs, c.u))
      n == c.reqs[1].ax m == c.reqs[2].ax
      ax(q) == OutOf(r, q)
      size(q) == IF ax(q).t = "lab" THEN Len(ax(q).lab) ELSE Len(ax(q).x)
      d1 == DimOf(o, n) d2 == DimOf(o, m)
  IN IF r.k # "ok" THEN r
     ELSE IF ~PlainOut(r) \/ ~Realish(r) \/ ax(n).t = "op" \/ ax(m).t = "op" \/ size(n) < 2 \/ size(m) < 2
             \/ \E d \in 1..Len(r.sh) : r.sh[d] # 1 /\ d \notin {d1, d2} THEN Bad("unspec")
     ELSE [k |-> "ok", level |-> IsLevel(c.u), points |-> AsksSpectrum(c.reqs), x |-> ax(n), y |-> ax(m),
           ux |-> UnitNamed(o, c.reqs, n), uy |-> UnitNamed(o, c.reqs, m), sh |-> <<size(n), size(m)>>,
           v |-> TLCEval([p \in 1..(size(n) * size(m)) |-> EntryAt(r, d1, ((p - 1) \div size(m)) + 1, d2, ((p - 1) % size(m)) + 1)])]
\* arrows of a vector field, or of one of its components, around the turn
Arrows(V, c) ==
  LET rep == IF c.comp = "" THEN "xyz" ELSE "rphiz"
      own == InRep(V, Cyl)
      r == TLCEval(VecAlong(V, [m |-> "vec_along", rep |-> rep, reqs |-> c.reqs, u |-> c.u, sq |-> TRUE, mag |-> FALSE]))
      f == V.comps[1].f
  IN IF c.comp # "" /\ (~(c.comp \in Keys(V) \/ (InRep(V, Cart) /\ f.axes[DimOf(f, "angle")].sym.t = "none"))) THEN Bad("unspec")
     ELSE IF r.k # "ok" THEN r
     ELSE LET phi == OutOf(r, "angle") IN
          IF Len(phi.x) < 2 \/ \E k \in 1..3 : Len(r.comps[k].v) # Len(phi.x) THEN Bad("unspec")
          ELSE [k |-> "ok", phi |-> phi, comps |-> r.comps]
Respond(h, c) ==
  CASE c.m = "get_along" /\ IsLevel(c.u) -> PlainLevelIn(Side(h[c.o], c.reqs), c.reqs, c.u, c.sq)
    [] c.m = "get_along" -> Answer(Side(h[c.o], c.reqs), c.reqs, c.u, c.sq)
    [] c.m = "evaluate" -> HarmAnswer(h[c.o], c.reqs, c.sq)
    [] c.m = "get_magnitude_along" -> MagAnswer(Side(h[c.o], c.reqs), c.reqs, c.u, c.sq)
    \* the answer whose phase is asked
    [] c.m = "get_phase_along" -> Answer(Side(h[c.o], c.reqs), c.reqs, "", TRUE)
    [] c.m = "get_harmonics" -> Harmonics(Side(h[c.o], c.reqs), c.reqs, c.u, c.n)
    [] c.m = "to_dual" -> [k |-> "obj", obj |-> TLCEval(IF c.p = 0 THEN DualOf(h[c.o]) ELSE DualWith(h[c.o], h[c.p]))]
    [] c.m = "get_data_along" -> LET r == Extracted(h[c.o], c.reqs, c.u) IN
         IF r.k # "ok" THEN r ELSE IF r.f.ud # <<>> THEN NewDerived(r.f) ELSE NewObj(r.f)
    \* overwriting every array of an object: no other object changes; the object is not used again
    [] c.m = "scribble" -> [k |-> "ok"]
    \* any read: the harness compares it with the same read on objects that were never read
    [] c.m = "read" -> Bad("unspec")
    \* copy, or written in some way and read back
    [] c.m = "clone" -> NewObj(h[c.o])
    [] c.m = "time_to_freq" -> NewObj(FreqField(h[c.o]))
    [] c.m = "freq_to_time" -> NewObj(TimeField(h[c.o]))
    \* the field is the signal of the given lines; filtering tells their amplitudes
    [] c.m = "unleak" -> IF IsVec(c.lines) THEN NewVec(c.lines) ELSE NewObj(c.lines)
    [] c.m = "compare" -> Compared(h, c)
    [] c.m = "plot_2D" -> Curves(h, c)
    [] c.m = "vec_plot" -> Curves([k \in 1..Len(h) |-> Comp(h[k], c.comp)], c)
    [] c.m = "vec_arrows" -> Arrows(h[c.o], c)
    [] c.m = "plot_3D" -> Mapped(Side(h[c.o], c.reqs), c)
    [] c.m = "export" -> Exported(Side(h[c.o], c.reqs), c)
    [] c.m \in {"vec_along", "vec_harm"} -> VecAlong(h[c.o], c)
    [] c.m = "vec_convert" -> IF ~CanTurn(h[c.o], IF c.rep = "xyz" THEN Cart ELSE Cyl) THEN Bad("unspec")
                              ELSE NewVec(TLCEval(Converted(h[c.o], c.rep)))
    [] c.m = "vec_fourier" -> NewVec(IF c.inv THEN EachComp(h[c.o], TimeField) ELSE EachComp(h[c.o], FreqField))
    [] c.m = "vec_extract" -> LET r == TLCEval(VecExtract(h[c.o], c.reqs, c.u)) IN IF r.k # "obj" THEN r ELSE NewVec(r.obj)
    [] c.m = "rotate" ->
         LET o == h[c.o] W(f) == IF c.wave THEN RotatedSamples(f, c.step, c.tsym) ELSE Rotated(f, c.s) IN
         IF IsVec(o)
         THEN IF ~c.wave /\ \E k \in 1..Len(o.comps) : ~CanRotate(o.comps[k].f) THEN Bad("unspec")
              ELSE LET V == TLCEval(EachComp(o, W)) IN IF c.wave THEN NewVec(V) ELSE [k |-> "obj", obj |-> V]
         ELSE IF ~c.wave /\ ~CanRotate(o) THEN Bad("unspec")
         ELSE IF c.wave THEN NewObj(TLCEval(W(o))) ELSE [k |-> "obj", obj |-> TLCEval(W(o))]
    [] c.m = "change_periodicity" ->
         LET R(f) == Reperiod(f, c.nt, c.na, c.apert, c.apera) IN NewVec(TLCEval(EachComp(h[c.o], R)))
    \* axes of a field by name, in the order asked; all of them otherwise
    [] c.m = "named_axes" ->
         LET o == h[c.o] A == TLCEval(IF IsDual(o) THEN o.t.axes \o o.f.axes ELSE IF IsVec(o) THEN o.comps[1].f.axes ELSE o.axes)
             S == TLCEval(IF c.names = <<>> THEN SeqOf(Len(A))
                          ELSE LET S == SelectSeq(c.names, LAMBDA n : \E d \in 1..Len(A) : A[d].name = n)
                               IN [j \in 1..Len(S) |-> CHOOSE d \in 1..Len(A) : A[d].name = S[j]])
         IN [k |-> "ok", axes |-> TLCEval([j \in 1..Len(S) |-> [a |-> A[S[j]], full |-> FullX(A[S[j]])]])]
    [] c.m = "field_period" -> [k |-> "ok", has |-> \E d \in 1..Len(h[c.o].axes) : h[c.o].axes[d].sym.n > 1]
    [] c.m = "get_filter" -> Filtered(h[c.o].axes[c.d], c.want)
    \* axes as objects
    [] c.m = "axis_length" -> IF c.part = "anti" /\ h[c.o].sym.t # "aper" THEN Bad("err")
                              ELSE [k |-> "ok", n |-> PartLen(h[c.o], c.part)]
    [] c.m = "axis_values" ->
         IF c.part = "anti" /\ h[c.o].sym.t # "aper" THEN Bad("err")
         ELSE IF h[c.o].comp THEN [k |-> "ok", lab |-> h[c.o].lab]
         ELSE LET x == CoordsIn(h[c.o], c.u) IN
              IF ~x.ok THEN Bad("err")
              ELSE [k |-> "ok", e |-> x.e, x |-> SubSeq(x.x, 1, PartLen(h[c.o], c.part))]
    [] c.m = "axis_periodicity" -> [k |-> "ok", n |-> h[c.o].sym.n, aper |-> h[c.o].sym.t = "aper"]
    [] c.m = "axis_periodic" -> NewAxis(Rewrite(h[c.o], c.n, c.aper))
    [] c.m = "axis_to_linspace" -> NewAxis(h[c.o])
Effect(h, r) == IF r.k = "obj" THEN Append(h, r.obj) ELSE h
\* a sequence of calls: heap and log after them
RECURSIVE RunAcc(_, _, _, _)
RunAcc(h, cs, k, lg) ==
  IF k > Len(cs) THEN [heap |-> h, log |-> lg]
  ELSE LET r == TLCEval(Respond(h, cs[k]))
       IN RunAcc(TLCEval(Effect(h, r)), cs, k + 1, Append(lg, [call |-> cs[k], ans |-> r]))
Run(h, cs) == RunAcc(h, cs, 1, <<>>)

Do(c) ==
  /\ LET r == TLCEval(Respond(heap, c)) IN
       /\ log' = Append(log, [call |-> c, ans |-> r])
       /\ heap' = Effect(heap, r)
  /\ cid' = cid
Report(h0) == Write([id |-> cid, objs |-> h0, steps |-> log'])

(* ---------------------- building blocks of scenarios -------------------- *)
\* values: small integers, no repetition pattern
ValOf(i, j) == I(Draw(Seed, i, 1000 + j, 19) - 9)
Vals(i, n) == TLCEval([j \in 1..n |-> ValOf(i, j)])
GridX(x0, h, n) == TLCEval([j \in 1..n |-> RAdd(x0, RMul(I(j - 1), h))])
Perm(i, slot, s) ==   \* a drawn permutation of a sequence
  LET RECURSIVE P(_, _, _)
      P(rest, k, acc) == IF rest = <<>> THEN acc
        ELSE LET j == Draw(Seed, i, slot + k, Len(rest)) + 1
             IN P(SubSeq(rest, 1, j - 1) \o SubSeq(rest, j + 1, Len(rest)), k + 1, Append(acc, rest[j]))
  IN P(s, 0, <<>>)
SelectIdx(n, T(_)) == SelectSeq([j \in 1..n |-> j], T)
=============================================================================

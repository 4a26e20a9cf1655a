------------------------------- MODULE MC_C19 -------------------------------
(* Vector fields: components of either representation, whichever is stored;  *)
(* conversions, extractions and transforms of whole vector fields.           *)
EXTENDS ScenV

Conv(o, rep) == [m |-> "vec_convert", o |-> o, rep |-> rep]
OtherRep(V) == IF InRep(V, Cyl) THEN "xyz" ELSE "rphiz"
OwnRep(V) == IF InRep(V, Cyl) THEN "rphiz" ELSE "xyz"
CallsV(i, V) ==
  LET first == <<Ask(i, 2000, 1, V), Ask(i, 2200, 1, V)>>
      k == D(i, 9, 4)
      b1 == Conv(1, OtherRep(V))
      W == TLCEval(Run(<<V>>, <<b1>>).heap)
      ext == [m |-> "vec_extract", o |-> 1, reqs |-> TLCEval(ReqsV(i, 2400, V.comps[1].f)), u |-> P(i, 2390, <<"", "mT">>)]
      E == TLCEval(Run(<<V>>, <<ext>>).heap)
      reg == \A d \in 1..Len(V.comps[1].f.axes) : LET a == V.comps[1].f.axes[d] IN
               a.name \in {"time", "angle"} => a.x[1] = Zero /\ NOne(a) > 1 /\ (a.name = "time" => NOne(a) % 2 = 0)
      fou == [m |-> "vec_fourier", o |-> 1, inv |-> FALSE]
      F == TLCEval(Run(<<V>>, <<fou>>).heap)
  IN CASE k = 0 \/ (k = 1 /\ Len(W) = 1) \/ (k = 2 /\ Len(E) = 1) \/ (k = 3 /\ ~reg) -> first \o <<Ask(i, 2600, 1, V)>>
       [] k = 1 -> first \o <<b1, Conv(2, OwnRep(V)), Ask(i, 2600, 3, V), Conv(2, OtherRep(V)), Ask(i, 2800, 2, W[2])>>
       [] k = 2 -> first \o <<ext>> \o (IF E[2].comps[1].f.axes = <<>> \/ \E q \in 1..Len(V.comps) : \E j \in 1..Len(E[2].comps[q].f.val) : ~IsNum(E[2].comps[q].f.val[j]) THEN <<>> ELSE <<Ask(i, 2600, 2, E[2]), Ask(i, 2800, 2, E[2])>>)
       [] OTHER -> first \o <<fou, Ask(i, 2600, 2, F[2]), [m |-> "vec_fourier", o |-> 2, inv |-> TRUE], Ask(i, 2800, 3, V)>>
K == Budget(600, 6000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET V == TLCEval(VecV(i)) r == TLCEval(Run(<<V>>, TLCEval(CallsV(i, V)))) IN
  /\ heap' = r.heap /\ log' = r.log /\ cid' = i
  /\ Write([id |-> i, objs |-> <<V>>, steps |-> r.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

\* turning there and back is the identity; the squared length of the vector is kept at every sample
Exactly0(z) == IsNum(z) => CIsZero(z)
ThereAndBack ==
  \A k \in 1..Len(log) : (log[k].call.m = "vec_convert" /\ log[k].ans.k = "obj") =>
    LET V == heap[1] W == log[k].ans.obj n == Len(V.comps[1].f.val)
        names == IF InRep(V, Cart) THEN Cart ELSE Cyl
        val(U, key, j) == IF key \in Keys(U) THEN Comp(U, key).val[j] ELSE Zero
        len2(U, nm, j) == Add(Sqr(val(U, nm[1], j)), Sqr(val(U, nm[2], j)))
        rep == IF InRep(W, Cart) THEN Cart ELSE Cyl
    IN \A j \in 1..n : /\ Exactly0(Sub(len2(V, names, j), len2(W, rep, j)))
                       /\ rep = names => \A q \in 1..2 : Exactly0(Sub(val(V, names[q], j), val(W, rep[q], j)))
                       /\ Zth(V) = {} <=> Zth(W) = {}
=============================================================================

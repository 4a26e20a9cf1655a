------------------------------ MODULE MC_C29B -------------------------------
(* Plots of vector fields: curves of one component, arrows around the turn.  *)
EXTENDS ScenV

SliceQ(i, b, a) == IF D(i, b, 4) = 0 THEN Op(a.name, P(i, b + 1, <<"sum", "mean">>)) ELSE Idx(a.name, <<D(i, b + 1, NStored(a))>>)
\* one axis whole, one sample along the others
ReqsQ(i, b, f, d) ==
  LET main == LET a == f.axes[d] IN
        IF a.name # "angle" /\ ~a.comp /\ a.name = "time" /\ a.x[1] = Zero /\ D(i, b, 3) = 0 THEN Whole("freqs") ELSE Whole(a.name)
      rest == SelectIdx(Len(f.axes), LAMBDA e : e # d /\ D(i, b + e, 4) # 0)
  IN <<main>> \o TLCEval([j \in 1..Len(rest) |-> SliceQ(i, b + 20 * rest[j], f.axes[rest[j]])])
CallQ(i, k, V) ==
  LET b == 2000 + 200 * k f == V.comps[1].f n == Len(f.axes)
      angle == CHOOSE d \in 1..n : f.axes[d].name = "angle"
      key == V.comps[1 + D(i, b, Len(V.comps))].key
  IN IF D(i, b + 1, 2) = 0
     THEN [m |-> "vec_plot", o |-> 1, comp |-> key, others |-> IF D(i, b + 6, 3) = 0 THEN <<2>> ELSE <<>>, reqs |-> ReqsQ(i, b + 20, f, 1 + D(i, b + 2, n)), u |-> P(i, b + 3, <<"", "mT">>),
           type |-> ""]
     ELSE [m |-> "vec_arrows", o |-> 1, comp |-> P(i, b + 4, <<"", "", "radial", "tangential">>), reqs |-> ReqsQ(i, b + 20, f, angle),
           u |-> P(i, b + 3, <<"", "mT">>), radius |-> P(i, b + 5, << Zero, I(2), <<1, 2>> >>), type |-> "quiver"]
K == Budget(250, 2500)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET V == TLCEval(VecV(i)) Other(f) == [f EXCEPT !.val = TLCEval([j \in 1..Len(@) |-> Sub(One, @[j])]), !.name = "Second"]
      h == TLCEval(<<V, EachComp(V, Other)>>) r == TLCEval(Run(h, TLCEval([k \in 1..4 |-> CallQ(i, k, V)]))) IN
  /\ heap' = r.heap /\ log' = r.log /\ cid' = i
  /\ Write([id |-> i, objs |-> h, steps |-> r.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

\* one arrow per angle
EachAngle == \A k \in 1..Len(log) : (log[k].call.m = "vec_arrows" /\ log[k].ans.k = "ok") =>
  \A j \in 1..Len(log[k].ans.comps) : Len(log[k].ans.comps[j].v) = Len(log[k].ans.phi.x)
=============================================================================

------------------------------- MODULE MC_C23 -------------------------------
(* Dual fields: built from the direct side, from the spectral side, from     *)
(* both; time, space and spectral requests in any order.                     *)
EXTENDS ScenF

Start(i) == TLCEval(IF D(i, 2, 4) = 0 THEN SpecF(i) ELSE FieldF(i))
FromSpectrum(i) == D(i, 2, 4) = 0 \/ D(i, 20, 4) = 3
SideReqD(i, b, o, spec) ==
  LET a(d) == o.axes[d] IN
  [d \in 1..Len(o.axes) |->
     IF a(d).comp THEN CompSelD(i, b + 10 * d, a(d))
     ELSE IF spec THEN (CASE D(i, b + 10 * d, 4) = 0 -> Idx(a(d).name, <<D(i, b + 10 * d + 1, Len(a(d).x))>>)
                          [] D(i, b + 10 * d, 4) = 1 /\ a(d).name \notin {"freqs", "wavenumber"} -> Whole(a(d).name)
                          [] D(i, b + 10 * d, 4) = 2 /\ a(d).name \in {"freqs", "wavenumber"} -> Gt(a(d).name, RSub(a(d).x[1], <<1, 8>>))
                          [] OTHER -> Whole(a(d).name))
     ELSE IF D(i, b + 10 * d, 6) = 0 THEN Op(a(d).name, P(i, b + 10 * d + 1, << "sum", "mean", "integrate" >>))
     ELSE LET r == SelD(i, b + 10 * d, a(d), "")    \* instants of inverse transforms are rounded: not asked by value
          IN IF FromSpectrum(i) /\ HasValues(r) THEN Whole(a(d).name) ELSE r]
\* request k on object k0 + which: direct, spectral or mixed
ReqD(i, k, t, f) ==
  LET b == 1000 + 100 * k c == D(i, b, 5) IN
  CASE c \in {0, 1} -> SideReqD(i, b + 1, t, FALSE)
    [] c \in {2, 3} -> SideReqD(i, b + 1, f, TRUE)
    [] OTHER -> LET r == SideReqD(i, b + 1, f, TRUE) IN      \* mixed: one of the axes in the direct domain
         [d \in 1..Len(r) |-> IF d = 1 + D(i, b + 60, Len(r)) /\ IsSpectral(f.axes[d]) THEN Whole(DirectOf(f.axes[d].name)) ELSE r[d]]
SomeReqs(i, k, r) == LET S == SelectIdx(Len(r), LAMBDA d : D(i, 1000 + 100 * k + 70 + d, 8) # 0)
                     IN Perm(i, 1000 + 100 * k + 80, [j \in 1..Len(S) |-> r[S[j]]])
\* another content on the same axes, for dual fields given both sides
Twisted(i, f) == [f EXCEPT !.val = TLCEval([j \in 1..Len(f.val) |-> Mul(I(2), f.val[j])])]
N == 6
CallsI(i, objs) ==
  LET o == objs[1] duals == IF Len(objs) = 1 THEN <<On("to_dual", 1) @@ [p |-> 0]>> ELSE <<On("to_dual", 1) @@ [p |-> 2]>>
      x == TLCEval(Run(objs, duals).heap) t == x[Len(x)].t f == x[Len(x)].f
      \* a second dual field built from the other side of the first
      w == Len(x)
      ask(k) == [Get(w, SomeReqs(i, k, ReqD(i, k, t, f))) EXCEPT !.sq = D(i, 1000 + 100 * k + 90, 2) = 0,
                    !.u = IF o.norms # <<>> /\ D(i, 1000 + 100 * k + 91, 4) = 0 THEN "ref" ELSE ""]
  IN duals \o [k \in 1..N |-> ask(k)]
K == Budget(900, 9000)
ObjsI(i) == LET o == Start(i) IN
  CASE o.cls = "DataFreq" \/ D(i, 20, 4) = 0 -> <<o>>
    [] D(i, 20, 4) = 3 -> <<TLCEval(FreqField(o))>>
    [] D(i, 20, 4) = 1 -> <<o, TLCEval(Twisted(i, FreqField(o)))>>
    [] OTHER -> LET f == TLCEval(FreqField(o)) IN <<f, o>>
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} : LET objs == TLCEval(ObjsI(i)) IN CallN(i, objs, TLCEval(CallsI(i, objs)))
Spec == Init /\ [][Next]_vars

InTable(v) == \A j \in 1..Len(v) : ~IsNum(v[j]) \/ IsRat(v[j]) \/ v[j][2] <= Len(Phi)
\* a dual field without twisted content answers every request like its direct side alone
SameAns(a, b) == a.k = b.k /\ a.axes = b.axes /\ a.sh = b.sh /\ \A j \in 1..Len(a.v) : SameNum(a.v[j], b.v[j])
LikeDirectSide ==
  (log # <<>> /\ log[1].call.p = 0 /\ heap[1].cls = "DataTime") =>
    \A k \in 2..Len(log) :
      LET c == log[k].call a == log[k].ans b == Answer(heap[1], c.reqs, c.u, c.sq) IN
      \/ a.k # "ok" \/ b.k # "ok" \/ Len(c.reqs) < Len(heap[1].axes) \/ ~InTable(a.v) \/ ~InTable(b.v)
      \* one-sided wavenumbers of real fields
      \/ \E d \in 1..Len(heap[1].axes) : PlanOn(heap[1], d, ReqOn(heap[1], d, c.reqs), c.reqs).k = "sel"
                                         /\ PlanOn(heap[1], d, ReqOn(heap[1], d, c.reqs), c.reqs).twice
      \/ SameAns(a, b)
=============================================================================

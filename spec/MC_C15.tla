------------------------------- MODULE MC_C15 -------------------------------
(* Extraction: a field is extracted by a request, asked again, and then     *)
(* either the source or the extracted field is overwritten.                 *)
(* Invariants: what is extracted is what the request returns (Holds), and a *)
(* further request equals the combined request on the source (Combined).    *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"z">>, <<"x">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "x">>, <<"z", "angle">>, <<"time", "angle", "z">>, <<"c", "time", "angle">>,
              <<"angle", "x", "time">>, <<"time", "c">>, <<"x", "y">> >>
Lay(i) == P(i, 1, Layouts)
Ref(name, u, p, e) == [name |-> name, k |-> "ref", p |-> p, q |-> Zero, e |-> e, u |-> u, vec |-> <<>>]
AxisI(i, d, L) ==
  LET a == IF L[d] = "c" THEN CompD(i, 100 * d, "c", 4)
           ELSE AxisD(i, 100 * d, L[d], 1, IF Len(L) = 3 THEN 3 ELSE IF Len(L) = 2 THEN 4 ELSE 6,
                      IF Len(L) = 3 THEN SubSeq(Syms, 2, 5) ELSE Syms)
  IN IF ~a.comp /\ D(i, 100 * d + 9, 3) = 0 THEN [a EXCEPT !.norms = << Ref("per2", "SI", I(2), a.e) >>] ELSE a
ObjI(i) ==
  LET L == Lay(i) axes == TLCEval([d \in 1..Len(L) |-> AxisI(i, d, L)]) o == TLCEval(FieldOf(i, axes)) IN
  LET o2 == [o EXCEPT !.norms = IF D(i, 2, 2) = 0 THEN << Ref("ref", "SI", I(3), 0) >> ELSE <<>>,
                      !.ints = D(i, 3, 4) = 0]
      real == D(i, 4, 5) # 0
  IN IF \E d \in 1..Len(axes) : axes[d].name = "time" /\ D(i, 5, 5) = 0 /\ axes[d].x[1] = Zero
        /\ (\A f \in 1..Len(axes) : axes[f].comp \/ axes[f].sym.t = "none" \/ Len(axes[f].x) > 1)
        /\ (\A f \in 1..Len(axes) : axes[f].name = "angle" => axes[f].x[1] = Zero)
     THEN [FreqField([o2 EXCEPT !.real = real]) EXCEPT !.ints = FALSE] ELSE o2
Ops == << "sum", "mean", "rms", "max", "min", "integrate", "derivate", "antiderivate" >>
UnitFor(i, b, a) == IF D(i, b, 4) # 0 THEN "" ELSE IF a.unit = "s" THEN "ms" ELSE IF a.unit = "m" THEN "mm" ELSE IF a.unit = "rad" THEN "°" ELSE IF a.unit = "Hz" THEN "kHz" ELSE ""
\* spectra are asked for samples and transformed back, fields with other irrational values asked for samples only
Kinds(o) == IF \A j \in 1..Len(o.val) : IsRat(o.val[j]) THEN 2 ELSE IF \A j \in 1..Len(o.val) : IsNum(o.val[j]) THEN 1 ELSE 0
ReqI(i, a, b, lev) ==
  LET k == D(i, b + 20, 9) IN
  IF a.comp THEN CompSelD(i, b + 30, a)
  ELSE CASE k = 0 /\ lev = 2 -> Op(a.name, P(i, b + 21, Ops))
         [] k = 1 -> Small(a.name)
         [] k = 2 /\ lev = 2 /\ SpectralOf(a.name) # "" -> Whole(SpectralOf(a.name))
         [] k = 3 /\ lev = 2 /\ SpectralOf(a.name) # "" -> Idx(SpectralOf(a.name), <<0, 1>>)
         [] k \in {2, 3} /\ lev > 0 /\ DirectOf(a.name) # "" -> Whole(DirectOf(a.name))
         [] OTHER -> SelD(i, b + 30, a, UnitFor(i, b + 22, a))
ReqsI(i, o, b) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, b + 10 + d, 6) # 0)
  IN Perm(i, b + 70, [j \in 1..Len(S) |-> ReqI(i, o.axes[S[j]], b + 100 * S[j], Kinds(o))])
K == Budget(3000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(ObjI(i))
           u == IF D(i, 6, 5) = 0 THEN "mT" ELSE ""
           c1 == Take(1, TLCEval(ReqsI(i, o, 1000)), u)
           r1 == TLCEval(Respond(<<o>>, c1))
           f == IF r1.k = "obj" THEN r1.obj ELSE o
           c2 == IF D(i, 7, 3) = 0 THEN Take(2, TLCEval(ReqsI(i, f, 2000)), "") ELSE Get(2, TLCEval(ReqsI(i, f, 2000)))
           ca == Get(2, TLCEval([d \in 1..Len(f.axes) |-> Whole(f.axes[d].name)]))
           cs == IF D(i, 8, 2) = 0 THEN <<[m |-> "scribble", o |-> 2], Get(1, TLCEval([d \in 1..Len(o.axes) |-> Whole(o.axes[d].name)]))>>
                 ELSE <<[m |-> "scribble", o |-> 1], ca>>
           st == TLCEval(IF r1.k = "obj" THEN Run(<<o>>, <<c1, ca, c2>> \o cs) ELSE Run(<<o>>, <<c1>>))
       IN heap' = st.heap /\ log' = st.log /\ cid' = i
          /\ Write([id |-> i, objs |-> <<o>>, steps |-> st.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars

SameVals(v, w) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : SameNum(v[j], w[j])
\* the extracted field holds what the request returns
Holds ==
  log # <<>> /\ log[1].ans.k = "obj" =>
    LET A == Answer(heap[1], log[1].call.reqs, log[1].call.u, FALSE) IN
    /\ SameVals(heap[2].val, A.v)
    /\ \A d \in 1..Len(heap[2].axes) : \E j \in 1..Len(A.axes) :
         /\ A.axes[j].n = heap[2].axes[d].name
         /\ IF heap[2].axes[d].comp THEN A.axes[j].lab = heap[2].axes[d].lab ELSE A.axes[j].x = heap[2].axes[d].x
\* selections by index compose
IdxOnly(c) == \A j \in 1..Len(c.reqs) : c.reqs[j].f = "idx" /\ c.reqs[j].u = ""
Combined ==
  log # <<>> /\ log[1].ans.k = "obj" /\ IdxOnly(log[1].call) /\ Len(log) > 2 /\ IdxOnly(log[3].call) /\ log[3].ans.k = "ok" /\ log[3].call.m = "get_along" =>
    LET o == heap[1] f == heap[2]
        comb(d) == LET r == ReqOn(o, d, log[1].call.reqs)
                       S == {j \in 1..Len(f.axes) : f.axes[j].name = r.ax}
                       g == IF S = {} THEN RQ(r.ax, "first") ELSE ReqOn(f, CHOOSE j \in S : TRUE, log[3].call.reqs)
                       at(n) == IF n < 0 THEN r.ns[n + Len(r.ns) + 1] ELSE r.ns[n + 1]
                   IN IF r.f = "first" THEN Idx(r.ax, <<0>>)
                      ELSE IF g.f = "first" THEN Idx(r.ax, <<r.ns[1]>>) ELSE Idx(r.ax, [m \in 1..Len(g.ns) |-> at(g.ns[m])])
        reqs == [d \in 1..Len(o.axes) |-> comb(d)]
        A == Answer(o, reqs, log[1].call.u, TRUE)
    IN /\ \A d \in 1..Len(o.axes) : reqs[d].ax # o.axes[d].name \/ TRUE
       /\ A.k = "ok" /\ SameVals(A.v, log[3].ans.v)
=============================================================================

------------------------------- MODULE MC_C02 -------------------------------
(* Reduced storage: each case makes the same request on a field stored on   *)
(* its period or half period and on the same field stored in full.          *)
(* Invariant Transparent: the specified answers are the same.               *)
EXTENDS Scen

Layouts == << <<"time">>, <<"angle">>, <<"z">>, <<"x">>, <<"time", "angle">>, <<"angle", "time">>, <<"x", "time">>,
              <<"time", "x">>, <<"z", "angle">>, <<"time", "angle", "z">>, <<"x", "time", "angle">>,
              <<"angle", "x", "time">> >>
Lay(i) == P(i, 1, Layouts)
Reduced == << Per(2), Per(3), APer(2), APer(4), NoSym, NoSym, Per(4), APer(6) >>
Light == << Per(2), APer(2), NoSym, NoSym, Per(3), APer(4) >>
AxesI(i) ==
  LET L == Lay(i) must == 1 + D(i, 2, Len(L)) IN
  [d \in 1..Len(L) |->
     AxisD(i, 100 * d, L[d], 1, IF Len(L) = 3 THEN 2 ELSE IF Len(L) = 2 THEN 4 ELSE 6,
           IF Len(L) = 1 THEN Reduced
           ELSE IF d = must THEN SubSeq(Reduced, 1, 4)
           ELSE IF Len(L) = 3 THEN SubSeq(Light, 1, 4) ELSE Light)]
Ops == << "sum", "mean", "rms", "rss", "max", "min", "integrate" >>
\* request on axis d: selection, reduction or spectrum
ReqI(i, a, b) ==
  LET k == D(i, b + 20, 8) IN
  CASE k \in {0, 1} -> Op(a.name, P(i, b + 21, Ops))
    [] k = 2 /\ SpectralOf(a.name) # "" -> Whole(SpectralOf(a.name))
    [] OTHER -> SelD(i, b + 30, a, IF a.name = "time" /\ D(i, b + 22, 5) = 0 THEN "ms" ELSE "")
ReqsI(i, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, 10 + d, 6) # 0)
  IN Perm(i, 70, [j \in 1..Len(S) |-> ReqI(i, o.axes[S[j]], 100 * S[j])])
\* the same request makes sense on both storages unless it names the stored part
Same(r) == r.f # "small"
K == Budget(3000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldOf(i, AxesI(i)))
           f == TLCEval(ExpandField(o))
           rs == TLCEval(ReqsI(i, o))
           c1 == Get(1, rs) c2 == Get(2, rs)
           r1 == TLCEval(Respond(<<o, f>>, c1)) r2 == TLCEval(Respond(<<o, f>>, c2))
           steps == << [call |-> c1, ans |-> r1], [call |-> c2, ans |-> r2] >>
       IN /\ heap' = <<o, f>>
          /\ log' = steps
          /\ cid' = i
          /\ Write([id |-> i, objs |-> heap', steps |-> steps])
Spec == Init /\ [][Next]_vars

\* requests that name the storage, or list the lines of the stored part, differ by nature
NamesStorage(c) == \E r \in 1..Len(c.reqs) : c.reqs[r].f \in {"one", "small"} \/ DirectOf(c.reqs[r].ax) # ""
SameAns(a, b) == /\ a.k = b.k /\ a.axes = b.axes /\ a.sh = b.sh /\ Len(a.v) = Len(b.v)
                 /\ \A j \in 1..Len(a.v) : SameNum(a.v[j], b.v[j])
Transparent ==
  log # <<>> => (NamesStorage(log[1].call) \/ log[1].ans.k = "unspec" \/ log[2].ans.k = "unspec" \/ SameAns(log[1].ans, log[2].ans))
=============================================================================

------------------------------- MODULE MC_C01 -------------------------------
(* Long histories of reads, valid or not, on a heap of several objects.      *)
EXTENDS ScenN, ScenV

\* a read whose answer other checks decide: here it depends on the object and the request alone
Read(o, f, reqs, u) == [m |-> "read", o |-> o, f |-> f, reqs |-> reqs, u |-> u, sq |-> TRUE, n |-> 2, others |-> <<>>]
Peek(o, f) == [m |-> "read", o |-> o, f |-> f, reqs |-> <<>>, u |-> "", sq |-> TRUE, n |-> 2, others |-> <<>>]
Raw(name, text) == [Op(name, text) EXCEPT !.f = "raw"]
SpecDual(i) == LET s == SpecF(i) IN IF s.axes[1].name = "freqs" \/ s.axes[Len(s.axes)].name = "freqs" THEN DualOf(s) ELSE s
Fields(i, k) ==
  CASE k = 0 -> FieldI(i)
    [] k = 1 -> FieldF(i)
    [] k = 2 -> SpecF(i)
    [] k = 3 -> DualOf(FieldF(i))
    [] k = 4 -> SpecDual(i)
    [] OTHER -> VecV(i)
ObjsI(i) ==
  << Fields(i, 0), Fields(i, 1 + D(i, 50, 4)), Fields(i, 5) >>
IsField(o) == ~IsVec(o) /\ ~IsDual(o)
First(o) == IF IsVec(o) THEN o.comps[1].f ELSE IF IsDual(o) THEN o.t ELSE o
Wrong == << "=", "[99]", "[]x", "{}", "=1,2", ">", "[all]", "{unknown}", "=mean", "=rms{V}", "=derivate", "[-1]", "[oneperiod,smallestperiod]", "=axis_data", "[smallestpattern]", "->nothing", "=integrate", "=integrate_local" >>
NamesR == << "time", "angle", "freqs", "wavenumber", "z", "x", "phase", "speed", "order", "frequency", "" >>
\* requests of any kind, most of them about the axes of the object
ReqR(j, b, o) ==
  LET f == First(o) a == P(j, b, f.axes) k == D(j, b + 1, 6) IN
  CASE k = 0 -> Raw(P(j, b + 2, NamesR), P(j, b + 3, Wrong))
    [] k = 1 -> Raw(a.name, P(j, b + 3, Wrong))
    [] k = 2 /\ ~IsSpectral(a) /\ a.name \in {"time", "angle"} -> Whole(SpectralOf(a.name))
    [] k = 2 /\ IsSpectral(a) -> Whole(DirectOf(a.name))
    [] k = 3 /\ a.pat.on -> Raw(a.name, P(j, b + 2, <<"[smallestpattern]", "[pattern]", "", "[oneperiod]">>))
    [] k = 3 -> Idx(a.name, <<0>>)
    [] OTHER -> IF IsField(o) /\ o.cls = "DataTime" /\ ~a.comp THEN SelD(j, b + 4, a, "") ELSE Whole(a.name)
ReqsR(j, o) ==
  LET n == 1 + D(j, 600, 3) IN [q \in 1..n |-> ReqR(j, 610 + 40 * q, o)]
UnitR(j) == P(j, 601, << "", "", "", "", "mT", "V", "->", "ref", "dB", "dBA", "SI", "T", "unknown" >>)
FieldReads == << "get_along", "get_magnitude_along", "get_magnitude_along", "get_phase_along", "get_harmonics", "get_harmonics", "get_data_along", "get_data_along",
                 "compare_along", "compare_magnitude_along", "compare_phase_along", "export_along", "export_along" >>
\* exports of dual fields show the side asked last
DualReads == SubSeq(FieldReads, 1, 11)
FieldPeeks == << "has_period", "get_axes", "copy", "as_dict", "__sizeof__", "==", "compare", "time_to_freq", "freq_to_time", "to_datadual", "axes", "axes", "filter_spectral_leakage" >>
VecReads == << "get_xyz_along", "get_rphiz_along", "get_mag_xyz_along", "get_mag_rphiz_along", "get_harm_xyz_along", "get_harm_rphiz_along",
               "get_vectorfield_along" >>
VecPeeks == << "to_xyz", "to_rphiz", "time_to_freq", "freq_to_time", "get_axes", "copy", "as_dict", "==", "compare", "change_periodicity", "filter_spectral_leakage" >>
\* the field of values of a call is compared with another field
StepI(i, k, os) ==
  LET j == i + 50021 * k                   \* draws of this step
      o == 1 + D(j, 602, Len(os)) x == os[o]
      kind == D(j, 603, 4) IN
  IF IsVec(x)
  THEN CASE kind = 0 -> Peek(o, P(j, 604, VecPeeks))
         [] kind = 1 -> Read(o, P(j, 604, VecReads), ReqsR(j, x), UnitR(j))
         [] kind = 2 -> Read(o, P(j, 604, VecReads), ReqsV(j, 2000, x.comps[1].f), UnitR(j))
         [] OTHER -> Ask(j, 2000, o, x)
  ELSE CASE kind = 0 /\ ~IsDual(x) -> Peek(o, P(j, 604, FieldPeeks))
         [] kind = 1 \/ ~IsField(x) ->
              [Read(o, P(j, 604, IF IsField(x) THEN FieldReads ELSE DualReads), TLCEval(ReqsR(j, x)), UnitR(j)) EXCEPT !.others = <<1 + D(j, 605, 2)>>, !.sq = D(j, 606, 2) = 0]
         [] kind = 2 -> [Read(o, P(j, 604, FieldReads), TLCEval(IF o = 1 THEN ReqsI(j, x) ELSE ReqsR(j, x)), UnitR(j)) EXCEPT !.others = <<1 + D(j, 605, 2)>>]
         [] OTHER -> IF o = 1 THEN [CallI(j, x) EXCEPT !.o = 1] ELSE Get(o, <<Whole(P(j, 607, x.axes).name)>>)
N == IF Thorough THEN 14 ELSE 9
CallsI(i, os) ==
  LET c == TLCEval([k \in 1..N |-> StepI(i, k, os)])
  \* some requests again, in another order
  IN c \o Perm(i, 700, SubSeq(c, 1, 3 + D(i, 701, 3)))
K == Budget(1500, 12000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} :
  LET os == TLCEval(ObjsI(i)) r == TLCEval(Run(os, TLCEval(CallsI(i, os)))) IN
  /\ heap' = r.heap /\ log' = r.log /\ cid' = i
  /\ Write([id |-> i, objs |-> os, steps |-> r.log, watch |-> TRUE, alone |-> TRUE])
Spec == Init /\ [][Next]_vars

\* reads leave the heap as it was, and the same request has the same answer
Unchanged == log # <<>> => heap = ObjsI(cid)
SameAnswer == \A k, q \in 1..Len(log) : log[k].call = log[q].call => log[k].ans = log[q].ans
=============================================================================

------------------------------- MODULE MC_C18B ------------------------------
(* Requests that ask something the axes, units or normalizations cannot give *)
(* are refused with an error of the library, and the field answers as before *)
(* afterwards.                                                               *)
EXTENDS ScenN

K == Budget(2500, 25000)
\* what cannot be asked on an axis; slots b, b+1
BadI(i, b, a) ==
  LET s == << InUnit(Whole(a.name), P(i, b + 1, << "missing", "kN", "V", "ref3" >>)), [RQ(a.name, "raw") EXCEPT !.op = "=axis_data"] >>
             \o (IF a.comp THEN <<>>
                 ELSE << InUnit(Idx(a.name, <<0>>), "missing"), Arrow(InUnit(Whole(a.name), "missing")) >>
                      \o (IF (a.sym.t = "aper" /\ ~a.pat.on) \/ a.name = "freqs" THEN <<>> ELSE << Anti(a.name) >>)
                      \o (IF a.pat.on THEN << OnePer(a.name) >> ELSE << Patt(a.name) >>))
  IN IF a.comp THEN s[2] ELSE s[D(i, b, Len(s)) + 1]
BadCallI(i, o, c) ==
  LET d == D(i, 200, Len(o.axes)) + 1 r == BadI(i, 201, o.axes[d])
      bare == SelectSeq(c.reqs, LAMBDA q : q.ax \notin {o.axes[d].name, SpectralOf(o.axes[d].name)})
  IN IF D(i, 199, 5) = 0
     THEN [c EXCEPT !.u = IF o.norms = <<>> THEN P(i, 205, << "V", "unknown", "->", "s" >>) ELSE P(i, 205, << "V", "unknown", "s" >>)]
     ELSE [c EXCEPT !.reqs = Perm(i, 210, Append(bare, r))]
As(i, c) == IF D(i, 198, 3) = 0 THEN Take(c.o, c.reqs, IF c.u = "->" THEN "V" ELSE c.u) ELSE c
LibErrors == << "AxisError", "UnitError", "NormError" >>
Refuse == [k |-> "err", exc |-> LibErrors]
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldI(i)) g0 == TLCEval(CallI(i, o))
           g == IF Answer(o, g0.reqs, g0.u, g0.sq).k = "ok" THEN g0 ELSE [g0 EXCEPT !.reqs = <<>>, !.u = ""]
           good == TLCEval(Answer(o, g.reqs, g.u, g.sq))
           bad == TLCEval(As(i, BadCallI(i, o, g)))
           st == << [call |-> g, ans |-> good], [call |-> bad, ans |-> Refuse], [call |-> g, ans |-> good] >>
       IN /\ heap' = <<o>> /\ cid' = cid /\ log' = st
          /\ Write([id |-> i, objs |-> <<o>>, steps |-> st, watch |-> TRUE])
Spec == Init /\ [][Next]_vars
\* the answers defined elsewhere agree that nothing can be returned
NothingToGive ==
  Len(log) = 3 => LET c == log[2].call IN
    (\A j \in 1..Len(c.reqs) : c.reqs[j].f # "raw")
    => Answer(heap[1], c.reqs, c.u, TRUE).k \in {"err", "unspec"}
=============================================================================

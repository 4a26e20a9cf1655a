------------------------------- MODULE MC_C11 -------------------------------
(* Units and normalizations of axes and fields: each case asks the same      *)
(* samples in a unit or normalization and without it.                        *)
EXTENDS ScenN

\* the same samples without unit or normalization, by index
Bare(o, c) ==
  [c EXCEPT !.u = "",
     !.reqs = TLCEval([j \in 1..Len(c.reqs) |->
        LET r == c.reqs[j] IN
        IF HasValues(r) THEN r
        ELSE [r EXCEPT !.u = "", !.arrow = FALSE]])]
K == Budget(4000, 40000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldI(i)) c == TLCEval(CallI(i, o))
       IN CallN(i, <<o>>, <<c, Bare(o, c)>>)
Spec == Init /\ [][Next]_vars
\* without a unit on the field nor requests by value, the values are those of the bare request
OnlyCoords ==
  Len(log) = 2 => LET c == log[1].call r == log[1].ans s == log[2].ans IN
    (r.k = "ok" /\ s.k = "ok" /\ FieldPlain(heap[1], c.u)) => r.sh = s.sh /\ r.v = s.v
\* with a unit on the field, coordinates do not change
OnlyValues ==
  Len(log) = 2 => LET c == log[1].call r == log[1].ans s == log[2].ans IN
    (r.k = "ok" /\ s.k = "ok" /\ \A j \in 1..Len(c.reqs) : c.reqs[j].u = "") => r.axes = s.axes /\ r.sh = s.sh
=============================================================================

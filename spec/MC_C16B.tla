------------------------------- MODULE MC_C16B ------------------------------
(* Copies and objects read back answer requests like the original, whatever  *)
(* happens to the original.                                                  *)
EXTENDS ScenN

HasFun(s) == \E k \in 1..Len(s) : s[k].k = "func"
WaysI(o) == IF HasFun(o.norms) \/ \E d \in 1..Len(o.axes) : HasFun(o.axes[d].norms) THEN << "copy", "pkl" >>
            ELSE << "copy", "dict", "json", "str", "pkl", "dir", "bare", "inlist", "inmap" >>
CloneI(i, b, j, o) == [m |-> "clone", o |-> j, way |-> P(i, b, WaysI(o)), h |-> D(i, b + 1, 2)]
K == Budget(2000, 20000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET o == TLCEval(FieldI(i)) c == TLCEval(CallI(i, o))
           calls == <<CloneI(i, 500, 1, o), [c EXCEPT !.o = 2], CloneI(i, 510, 2, o), [m |-> "scribble", o |-> 1 + D(i, 520, 2)], [c EXCEPT !.o = 3]>>
           st == TLCEval(Run(<<o>>, calls))
       IN heap' = st.heap /\ log' = st.log /\ cid' = i
          /\ Write([id |-> i, objs |-> <<o>>, steps |-> st.log, watch |-> TRUE])
Spec == Init /\ [][Next]_vars
\* the answers before and after are the same
SameAnswers == log # <<>> => log[2].ans = log[5].ans
=============================================================================

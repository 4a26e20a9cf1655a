------------------------------- MODULE MC_C16 -------------------------------
(* Copies, dictionary forms and files keep the whole object, and the objects *)
(* share nothing afterwards.                                                 *)
EXTENDS ObjRun

K == Budget(3600, 40000)
First(i) == <<ObjD(i, 100, AllCls[(i % Len(AllCls)) + 1])>>
Ways == << "copy", "dict", "json", "str", "pkl", "dir", "bare", "inlist", "inmap" >>
CallK(i, k, h) ==
  CASE k = 1 -> [m |-> Ways[((i \div Len(AllCls)) % Len(Ways)) + 1], o |-> 1, h |-> D(i, 2, 2)]
    [] OTHER ->
       CASE D(i, 3000 + k, 9) \in {0, 1} -> SetD(i, 200 * k, h)
         [] D(i, 3000 + k, 9) \in {2, 3, 4} -> PokeD(i, 200 * k, h)
         [] D(i, 3000 + k, 9) = 5 -> EqD(i, 200 * k, h)
         [] OTHER -> CloneD(i, 200 * k, h, Ways)
N == 7
Init == InitRun(K)
Next == StartRun(First) \/ MoreRun(First, CallK, N)
Spec == Init /\ [][Next]_vars

\* a copy is equal to its source, in any number of steps; only callables are lost in texts
CopyEqual == \A k \in 1..Len(log) :
  log[k].call.m \in {"copy", "pkl"} => LET s == log[k].ans.now IN Len(s) = 1
OnlyChanged == \A k \in 1..Len(log) : LET c == log[k].call IN
  CASE c.m \in {"set", "poke"} -> \A j \in 1..Len(log[k].ans.now) : log[k].ans.now[j].o = c.o
    [] c.m \in {"eq", "cmp"} -> log[k].ans.now = <<>>
    [] OTHER -> \A j \in 1..Len(log[k].ans.now) : SameObj(Textual(log[k].ans.now[j].x), Textual(log[k].ans.now[1].x))
=============================================================================

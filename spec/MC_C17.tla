------------------------------- MODULE MC_C17 -------------------------------
(* Equality and difference reports of objects of every class.               *)
EXTENDS ObjRun

K == Budget(4000, 40000)
\* a first object and another one: the same content, changed in one or two
\* attributes at any depth, or another object altogether
FirstD(i) == ObjD(i, 100, AllCls[(i % Len(AllCls)) + 1])
OtherD(i, x) ==
  LET c1 == ChangedD(i, 20, x) y == TLCEval(SetAt(x, c1.path, c1.n, c1.v))
      c2 == ChangedD(i, 60, y)
  IN CASE D(i, 1, 8) = 0 -> x
       [] D(i, 1, 8) \in {1, 2, 3, 4} -> y
       [] D(i, 1, 8) \in {5, 6} -> SetAt(y, c2.path, c2.n, c2.v)
       [] OTHER -> ObjD(i, 41000, P(i, 2, AllCls))
\* the k-th call of case i on the pool h
CallK(i, k, h) ==
  CASE k = 1 -> [m |-> "eq", o |-> 1, p |-> 2]
    [] k = 2 -> [m |-> "eq", o |-> 2, p |-> 1]
    [] k = 3 -> [m |-> "cmp", o |-> 1, p |-> 2, add |-> FALSE, ign |-> <<>>]
    [] OTHER ->
       CASE D(i, 3000 + k, 8) = 0 -> SetD(i, 200 * k, h)
         [] D(i, 3000 + k, 8) = 1 -> CloneD(i, 200 * k, h, << "copy" >>)
         [] D(i, 3000 + k, 8) = 2 -> PokeD(i, 200 * k, h)
         [] D(i, 3000 + k, 8) = 3 -> EqD(i, 200 * k, h)
         [] OTHER -> CmpD(i, 200 * k, h)
N == 8
First(i) == LET x == TLCEval(FirstD(i)) IN <<x, OtherD(i, x)>>
Init == InitRun(K)
Next == StartRun(First) \/ MoreRun(First, CallK, N)
Spec == Init /\ [][Next]_vars

\* equality of the specification: symmetric, and empty reports exactly for equal objects
Agree == \A j, k \in 1..Len(heap) :
  /\ SameObj(heap[j], heap[k]) = SameObj(heap[k], heap[j])
  /\ (Diff(heap[j], heap[k], "self") = {}) = SameObj(heap[j], heap[k])
  /\ {x.p : x \in Diff(heap[j], heap[k], "s")} = {x.p : x \in Diff(heap[k], heap[j], "s")}
=============================================================================

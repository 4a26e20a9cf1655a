------------------------------- MODULE MC_C22 -------------------------------
(* Unique, union and intersection up to a tolerance.                        *)
EXTENDS Scen, Sets

\* elements: a multiple of the step m*t, moved by less than half of the tolerance t
ElD(i, b, g, t, near) ==
  << RAdd(RMul(g, I(D(i, b, 9) - 3)), IF near THEN RMul(t, P(i, b + 1, << Zero, Zero, <<1, 8>>, <<-1, 8>>, <<1, 4>>, <<-1, 4>> >>)) ELSE Zero),
     P(i, b + 2, << 0, 0, 1, -1, 2, -3 >>) >>
ArrD(i, b, n, g, t, near) == [j \in 1..n |-> ElD(i, b + 3 * j, g, t, near)]
\* one case: kind of tolerance, arrays a and b
CaseI(i) ==
  LET abs == D(i, 1, 2) = 0
      t == P(i, 2, << One, <<1, 4>>, <<1, 64>>, I(3) >>)
      g == RMul(t, I(2 + D(i, 3, 3)))
      near == D(i, 4, 2) = 0
      \* relative tolerance: r times the largest magnitude, the largest element being exact
      r == P(i, 2, << <<1, 64>>, <<1, 16>>, <<1, 8>> >>)
      M == P(i, 5, << I(8), I(16), I(64), I(-16), I(32) >>)
      tr == RMul(r, RAbs(M))
      gr == RMul(tr, I(2))
      na == D(i, 6, 6) nb == D(i, 7, 7)
      fine == RLe(tr, One)      \* larger relative tolerances are cut down to one
      A0 == ArrD(i, 20, na, IF abs THEN g ELSE gr, IF abs THEN t ELSE tr, near /\ (abs \/ fine))
      B0 == ArrD(i, 60, nb, IF abs THEN g ELSE gr, IF abs THEN t ELSE tr, near /\ (abs \/ fine))
      keep(s) == SelectSeq(s, LAMBDA x : RLt(RAbs(x[1]), RAbs(M)))
      at(s) == LET k == D(i, 8, Len(s) + 1) IN SubSeq(s, 1, k) \o <<<<M, 0>>>> \o SubSeq(s, k + 1, Len(s))
  IN IF abs THEN [abs |-> TRUE, tol |-> t, t |-> t, a |-> Append(A0, ElD(i, 110, g, t, near)), b |-> B0]
     ELSE [abs |-> FALSE, tol |-> r, t |-> tr, a |-> at(keep(A0)), b |-> keep(B0)]
NoRep(a, t) == Len(Firsts(a, t)) = Len(a)
CallI(i, s) ==
  LET c == [a |-> s.a, b |-> s.b, tol |-> s.tol, abs |-> s.abs, o |-> 0]
  IN IF D(i, 10, 3) = 0
     THEN [m |-> "unique_tol", c |-> c, stable |-> D(i, 11, 3) = 0, idx |-> D(i, 12, 2) = 0, inv |-> D(i, 13, 2) = 0, cnt |-> D(i, 14, 2) = 0]
     ELSE [m |-> IF D(i, 10, 3) = 1 THEN "union1d_tol" ELSE "intersect1d_tol", c |-> c, idx |-> D(i, 12, 3) # 0,
           uniq |-> D(i, 15, 2) = 0 /\ NoRep(s.a, s.t) /\ NoRep(s.b, s.t)]
AnsI(s, c) ==
  LET t == s.t IN
  CASE c.m = "unique_tol" -> [k |-> "ok", tol |-> t] @@ Unique(s.a, t, c.stable)
    [] c.m = "union1d_tol" -> [k |-> "ok", tol |-> t] @@ Union(s.a, s.b, t)
    [] OTHER -> [k |-> "ok", tol |-> t] @@ Inter(s.a, s.b, t)
K == Budget(4000, 60000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next ==
  /\ log = <<>>
  /\ \E i \in {cid} :
       LET s == TLCEval(CaseI(i)) c == TLCEval(CallI(i, s)) r == TLCEval(AnsI(s, c)) IN
       /\ log' = <<[call |-> c, ans |-> r]>> /\ heap' = <<s>> /\ cid' = i
       /\ Write([id |-> i, objs |-> <<>>, steps |-> <<[call |-> c, ans |-> r]>>])
Spec == Init /\ [][Next]_vars

\* the scenarios leave no doubt: same or further apart than the tolerance
Clear == log # <<>> => LET s == heap[1] c == s.a \o s.b IN
  \A j, k \in 1..Len(c) : SameEl(c[j], c[k], s.t) \/ RLt(s.t, RAbs(RSub(c[j][1], c[k][1])))
\* groups partition the positions
Partition == log # <<>> => LET r == log[1].ans c == log[1].call IN
  c.m = "unique_tol" =>
    /\ \A j \in 1..Len(heap[1].a) : \E p \in 1..Len(r.groups) : r.inv[j] = p /\ \E q \in 1..Len(r.groups[p]) : r.groups[p][q] = j
    /\ \A p, q \in 1..Len(r.groups) : p # q => \A x \in 1..Len(r.groups[p]), y \in 1..Len(r.groups[q]) : r.groups[p][x] # r.groups[q][y]
=============================================================================

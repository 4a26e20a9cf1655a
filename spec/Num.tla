-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers of the specification.                                     *)
(*                                                                         *)
(*   rational      <<n, d>>                  n/d, d > 0, lowest terms       *)
(*   cyclotomic    <<"cyc", N, <<c0..cN-1>>>> sum of ck * exp(2 i pi k/N),   *)
(*                                           ck rational                    *)
(*   term          <<op, <<args>>, 0>>        a number that is not in one   *)
(*                                           of the two fields (sqrt, pi,   *)
(*                                           max, ...): kept symbolic       *)
(*                                                                         *)
(* All operators below compute exactly on the first two and build a term   *)
(* otherwise, so an expected answer is always an exact expression.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b

(* ------------------------------ rationals ------------------------------ *)
Q(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE LET s == IF d < 0 THEN -1 ELSE 1
           g == Gcd(Abs(n), Abs(d))
       IN <<s * (n \div g), s * (d \div g)>>   \* exact: g divides both
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
IsRat(x) == Len(x) = 2

RAdd(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
  ELSE IF a[2] = b[2] THEN Q(a[1] + b[1], a[2])
  ELSE LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE LET g1 == Gcd(Abs(a[1]), b[2]) g2 == Gcd(Abs(b[1]), a[2])
           h1 == IF g1 = 0 THEN 1 ELSE g1 h2 == IF g2 = 0 THEN 1 ELSE g2
       IN Q((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbs(a) == <<Abs(a[1]), a[2]>>
RIsInt(a) == a[2] = 1
RFloor(a) == a[1] \div a[2]

(* ------------------------------ cyclotomics ---------------------------- *)
IsCyc(x) == Len(x) = 3 /\ x[1] = "cyc"
Cyc(N, c) == <<"cyc", N, TLCEval(c)>>
\* w^k times the rational r, w = exp(2 i pi / N)
Root(N, k, r) == Cyc(N, [j \in 1..N |-> IF j - 1 = (k % N) THEN r ELSE Zero])
Lift(x, M) ==
  IF IsRat(x) THEN Cyc(M, [j \in 1..M |-> IF j = 1 THEN x ELSE Zero])
  ELSE IF x[2] = M THEN x
  ELSE LET q == M \div x[2]
       IN Cyc(M, [j \in 1..M |-> IF (j - 1) % q = 0 THEN x[3][((j - 1) \div q) + 1] ELSE Zero])
CAdd(a, b) ==
  LET M == Lcm(IF IsRat(a) THEN 1 ELSE a[2], IF IsRat(b) THEN 1 ELSE b[2])
      x == Lift(a, M) y == Lift(b, M)
  IN Cyc(M, [j \in 1..M |-> RAdd(x[3][j], y[3][j])])
CScale(r, a) == Cyc(a[2], [j \in 1..a[2] |-> RMul(r, a[3][j])])
\* multiplication by w_N^k
CTurn(a, N, k) ==
  LET M == Lcm(N, IF IsRat(a) THEN 1 ELSE a[2])
      x == Lift(a, M)
      s == (k * (M \div N)) % M
  IN Cyc(M, [j \in 1..M |-> x[3][((j - 1 - s) % M) + 1]])
CConj(a) == IF IsRat(a) THEN a ELSE Cyc(a[2], [j \in 1..a[2] |-> a[3][((1 - j) % a[2]) + 1]])
\* sum of the numbers of a line, the j-th one turned by t[j] / M (entries of L of order M)
RECURSIVE LcmFrom(_, _, _)
LcmFrom(l, j, acc) == IF j > Len(l) THEN acc ELSE LcmFrom(l, j + 1, IF IsRat(l[j]) THEN acc ELSE Lcm(acc, l[j][2]))
LiftLine(l, M) == TLCEval([j \in 1..Len(l) |-> Lift(l[j], M)[3]])
RECURSIVE TurnCoef(_, _, _, _, _, _)
TurnCoef(L, t, M, m, j, acc) ==
  IF j > Len(L) THEN acc
  ELSE LET c == L[j][((m - t[j]) % M) + 1]
       IN TurnCoef(L, t, M, m, j + 1, IF c[1] = 0 THEN acc ELSE RAdd(acc, c))
TurnSum(L, t, M) == Cyc(M, [m \in 1..M |-> TurnCoef(L, t, M, m - 1, 1, Zero)])
RECURSIVE CMulAcc(_, _, _, _)
CMulAcc(x, y, j, acc) ==
  IF j > x[2] THEN acc
  ELSE IF x[3][j][1] = 0 THEN CMulAcc(x, y, j + 1, acc)
  ELSE CMulAcc(x, y, j + 1, CAdd(acc, CTurn(CScale(x[3][j], y), x[2], j - 1)))
CMul(a, b) ==
  LET M == Lcm(IF IsRat(a) THEN 1 ELSE a[2], IF IsRat(b) THEN 1 ELSE b[2])
  IN CMulAcc(Lift(a, M), Lift(b, M), 1, Lift(Zero, M))
\* cyclotomic polynomials, lowest degree first: equality in the field is divisibility
Phi == <<
  <<-1, 1>>,
  <<1, 1>>,
  <<1, 1, 1>>,
  <<1, 0, 1>>,
  <<1, 1, 1, 1, 1>>,
  <<1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 1>>,
  <<1, 0, 0, 1, 0, 0, 1>>,
  <<1, -1, 1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, -1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1>>,
  <<1, -1, 0, 1, -1, 1, 0, -1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, -1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, -1, 0, 0, 0, 1>>,
  <<1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 1, 0, -1, -1, -1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, -1, 0, 0, 0, 1, -1, 1, -1, 0, 1, -1, 1, -1, 1, 0, -1, 1, -1, 1, 0, 0, 0, -1, 1>>,
  <<1, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 1, 0, -1, -1, 0, 1, 0, -1, -1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, 0, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, -1, 0, 0, 0, 1, -1, 0, 0, 0, 1, 0, -1, 0, 0, 1, 0, -1, 0, 0, 1, 0, 0, -1, 0, 1, 0, 0, -1, 0, 1, 0, 0, 0, -1, 1, 0, 0, 0, -1, 1>>,
  <<1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 1, 0, 0, 0, -1, 0, -1, 0, -1, 0, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, 0, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, -1, 0, 0, 0, 1, -1, 0, 0, 0, 1, -1, 0, 1, -1, 1, -1, 0, 1, -1, 1, -1, 0, 1, -1, 1, 0, -1, 1, -1, 1, 0, -1, 1, -1, 1, 0, -1, 1, 0, 0, 0, -1, 1, 0, 0, 0, -1, 1>>,
  <<1, 1, 0, -1, -1, 0, 1, 1, 0, -1, -1, -1, 0, 1, 1, 0, -1, -1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 0, 1, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1, 0, -1, 1>>,
  <<1, 1, 0, 0, 0, -1, -1, -1, -1, 0, 1, 1, 1, 1, 1, 0, -1, -1, -1, -1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1>>,
  <<1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1>>,
  <<1, -1, 0, 0, 0, 0, 0, 1, -1, 0, 0, 1, -1, 0, 1, -1, 0, 0, 1, -1, 0, 1, 0, -1, 0, 1, -1, 0, 1, 0, -1, 0, 1, 0, -1, 1, 0, -1, 0, 1, 0, -1, 1, 0, 0, -1, 1, 0, -1, 1, 0, 0, -1, 1, 0, 0, 0, 0, 0, -1, 1>>,
  <<1, 1, 0, -1, -1, 0, 1, 1, 0, -1, -1, 0, 1, 0, -1, -1, 0, 1, 1, 0, -1, -1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<1, 0, 1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 1>> >>
RECURSIVE PolyRem(_, _, _)
PolyRem(c, p, k) ==    \* remainder of c by the monic polynomial p, degrees k-1 and below are left
  IF k < Len(p) THEN SubSeq(c, 1, k)
  ELSE LET q == c[k] IN
       PolyRem(IF q[1] = 0 THEN c
               ELSE TLCEval([j \in 1..Len(c) |-> IF j > k - Len(p) /\ j <= k
                                         THEN RSub(c[j], RMul(q, I(p[j - k + Len(p)]))) ELSE c[j]]), p, k - 1)
CIsZero(a) ==
  IF IsRat(a) THEN a[1] = 0
  ELSE LET r == TLCEval(PolyRem(a[3], Phi[a[2]], a[2])) IN \A j \in 1..Len(r) : r[j][1] = 0
\* the same number written as a rational or as a complex rational when it is one
Simp(a) ==
  IF IsRat(a) \/ ~IsCyc(a) \/ a[2] > Len(Phi) THEN a
  ELSE LET N == a[2] r == TLCEval(PolyRem(a[3], Phi[N], N)) IN
       IF \A j \in 2..Len(r) : r[j][1] = 0 THEN r[1]
       ELSE IF N % 4 = 0 /\ \A j \in 2..Len(r) : j = N \div 4 + 1 \/ r[j][1] = 0
       THEN Cyc(4, <<r[1], r[N \div 4 + 1], Zero, Zero>>)
       ELSE a
CEq(a, b) == CIsZero(CAdd(a, IF IsRat(b) THEN RNeg(b) ELSE CScale(I(-1), b)))
\* the imaginary unit times a rational
Im(r) == Root(4, 1, r)
Complex(re, im) == Cyc(4, <<re, im, Zero, Zero>>)

(* ------------------------------- terms --------------------------------- *)
Term(op, args) == <<op, args, 0>>
NaN == Term("nan", <<>>)
Free == Term("free", <<>>)      \* value not stated
Pi == Term("pi", <<>>)
IsNum(x) == IsRat(x) \/ IsCyc(x)

Add(a, b) ==
  IF IsRat(a) /\ IsRat(b) THEN RAdd(a, b)
  ELSE IF IsNum(a) /\ IsNum(b) THEN CAdd(a, b)
  ELSE IF a = Zero THEN b ELSE IF b = Zero THEN a
  ELSE Term("add", <<a, b>>)
Mul(a, b) ==
  IF IsRat(a) /\ IsRat(b) THEN RMul(a, b)
  ELSE IF IsRat(a) /\ IsCyc(b) THEN CScale(a, b)
  ELSE IF IsCyc(a) /\ IsRat(b) THEN CScale(b, a)
  ELSE IF IsCyc(a) /\ IsCyc(b) THEN CMul(a, b)
  ELSE IF a = Zero \/ b = Zero THEN Zero
  ELSE IF a = One THEN b ELSE IF b = One THEN a
  ELSE Term("mul", <<a, b>>)
Neg(a) == IF IsRat(a) THEN RNeg(a) ELSE Mul(I(-1), a)
Sub(a, b) == Add(a, Neg(b))
Div(a, b) == IF IsRat(b) THEN Mul(RInv(b), a) ELSE Term("div", <<a, b>>)
Sqr(a) ==
  IF IsNum(a) THEN Mul(a, a)
  ELSE IF a[1] = "sqrt" THEN a[2][1]
  ELSE Term("mul", <<a, a>>)
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
PerfectSq(n) == n >= 0 /\ n < 10000 /\ LET k == ISqrt(n, 0) IN k * k = n
Sqrt(a) ==
  IF IsRat(a) /\ PerfectSq(a[1]) /\ PerfectSq(a[2]) THEN Q(ISqrt(a[1], 0), ISqrt(a[2], 0))
  ELSE Term("sqrt", <<a>>)
Modulus(a) == IF IsRat(a) THEN RAbs(a) ELSE Term("abs", <<a>>)
Arg(a) == Term("arg", <<a>>)

RECURSIVE SumFrom(_, _, _)
SumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE SumFrom(s, i + 1, Add(acc, s[i]))
SumSeq(s) == SumFrom(s, 1, Zero)
\* not different numbers: exact on rationals and cyclotomics, terms are not compared
SameNum(a, b) == IF IsNum(a) /\ IsNum(b) THEN CEq(a, b) ELSE TRUE
AllRat(s) == \A i \in 1..Len(s) : IsRat(s[i])
RECURSIVE BestFrom(_, _, _, _)
BestFrom(s, i, b, up) ==
  IF i > Len(s) THEN b
  ELSE BestFrom(s, i + 1, IF (up /\ RLt(b, s[i])) \/ (~up /\ RLt(s[i], b)) THEN s[i] ELSE b, up)
MaxSeq(s) == IF AllRat(s) THEN BestFrom(s, 2, s[1], TRUE) ELSE Term("max", s)
MinSeq(s) == IF AllRat(s) THEN BestFrom(s, 2, s[1], FALSE) ELSE Term("min", s)

(* ------------- reproducible pseudo-random choices (drawn cases) -------- *)
\* a small hash of (seed, case, slot); all products stay within 31-bit integers
HP == 46327
Mix(x, y) == LET a == ((x * 31847) + (y * 12289) + 977) % HP IN ((a * a) + x + (7 * y)) % HP
Hash(seed, i, slot) ==
  LET a == Mix((seed + 977 * (i \div HP)) % HP, i % HP)
      b == Mix(a, slot % HP)
      c == Mix(b, (a + i + 3 * slot) % HP)
  IN Mix(c, b)
Draw(seed, i, slot, n) == Hash(seed, i, slot) % n
Pick(seed, i, slot, s) == s[Draw(seed, i, slot, Len(s)) + 1]
=============================================================================

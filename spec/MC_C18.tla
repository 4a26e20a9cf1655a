------------------------------- MODULE MC_C18 -------------------------------
(* Attributes are checked: a value of another type, an array that does not   *)
(* fit the axes and unknown attributes are refused and change nothing.       *)
EXTENDS ObjRun

K == Budget(4000, 40000)
Two == List(<<IntV(1), NumV(<<5, 2>>)>>)
\* values of every kind
KindD(i, b) ==
  LET s == << None, StrV(P(i, b, Texts)), BoolV(D(i, b, 2) = 0), IntV(P(i, b, << -1, 0, 3 >>)), NumV(P(i, b, << <<1, 2>>, I(4) >>)), Cpx(One, One),
              RowD(i, b + 1, D(i, b, 4)), GridD(i, b + 1, <<2, 2>>), Two, List(<<>>), List(<<List(<<IntV(1), IntV(2)>>), List(<<IntV(3), IntV(4)>>)>>),
              List(<<List(<<IntV(1), IntV(2)>>), List(<<IntV(3)>>)>>), List(<<StrV("a"), StrV("b")>>),
              Dict(<<>>), Dict([a |-> IntV(2)]), Dict([a |-> NumV(<<1, 2>>), b |-> Two]), Dict([a |-> StrV("x")]), <<"fun", "lambda x: x + 1">>, <<"call", 1>>,
              Objs(<<>>), Objs(<<NormD(i, b + 100, "Norm_ref")>>), Objs(<<AxisLenD(i, b + 100, "Data1D", 2)>>),
              Objs(<<AxisLenD(i, b + 100, "Data1D", 2), NormD(i, b + 100, "Norm_indices")>>),
              OMap([x |-> NormD(i, b + 100, P(i, b, NormCls))]), OMap([x |-> AxisLenD(i, b + 100, "Data1D", 2)]),
              OMap([radial |-> FieldObjD(i, b + 100, "DataTime")]) >>
  IN s[D(i, b + 90, Len(s)) + 1]
\* shapes around the right one
ShapesD(i, b, sh) ==
  LET n == Len(sh) k == D(i, b + 1, n) + 1
      s == << sh, sh, NoOnes(sh), sh \o <<1>>, <<1>> \o sh, [j \in 1..n |-> sh[n + 1 - j]], [sh EXCEPT ![k] = @ + 1], <<Prod(sh)>>,
              SubSeq(sh, 1, n - 1), sh \o <<2>>, [sh EXCEPT ![k] = 1] >>
  IN s[D(i, b, Len(s)) + 1]
FitD(i, b, o) == GridD(i, b + 10, ShapesD(i, b, FieldShape(o)))
IsND(x) == x.cls \in NDClasses /\ SoundAxes(x)
\* attributes whose setting is specified
Open(x, inner, n) ==
  /\ inner /\ x.cls \in AxisClasses => n \notin {"number", "initial", "final", "step", "values", "include_endpoint"}
  /\ x.cls \in NDClasses /\ n = "values" => SoundAxes(x)
  /\ x.cls = "DataDual" => n \notin {"axes", "values"}
ValueD0(i, b, x, n) ==
  IF IsND(x) /\ n = "values" /\ D(i, b, 6) # 0 THEN FitD(i, b + 1, x)
  ELSE IF D(i, b, 3) = 0 THEN NewValD(i, b + 1, x.cls, n) ELSE KindD(i, b + 1)
\* objects in a plain list, dictionary or array, and texts of functions, are not specified
Murky(t, v) == CASE v[1] = "objs" -> t \in {"list", "ndarray"} [] v[1] = "omap" -> t = "dict" [] v[1] = "fun" -> t = "str"
                 [] v = List(<<>>) -> t = "[Data]" [] v[1] = "str" -> t = "function" [] OTHER -> FALSE
ValueD(i, b, x, n) == LET v == ValueD0(i, b, x, n) IN
  IF Murky(TypeOf(x.cls, n), v) THEN IntV(5) ELSE
  IF x.cls \in NDClasses /\ n \in {"values", "axes"} /\ (v \in {None, IntV(-1)} \/ v \in {Objs(<<>>)}) THEN StrV("") ELSE v
AnyAttrD(i, b, x, inner) == LET s == SelectSeq(AttrSeq(x), LAMBDA n : Open(x, inner, n)) IN
  IF D(i, b, 20) = 0 THEN P(i, b + 1, << "foo", "valeurs", "Name", "_x" >>)
  ELSE IF IsND(x) /\ D(i, b + 2, 3) = 0 THEN "values"
  ELSE s[D(i, b + 1, Len(s)) + 1]
First(i) == <<ObjD(i, 100, AllCls[(i % Len(AllCls)) + 1])>>
CallK(i, k, h) ==
  LET b == 500 * k IN
  IF D(i, b, 4) = 0
  THEN LET x == TLCEval(ObjD(i, 5000 * k, P(i, b + 1, AllCls))) n == AnyAttrD(i, b + 2, x, FALSE)
           m == IF n \notin DOMAIN x.at THEN AttrSeq(x)[1] ELSE n
       IN [m |-> "build", x |-> x, n |-> m, v |-> ValueD(i, b + 10, x, m)]
  ELSE LET o == D(i, b + 1, Len(h)) + 1
           path == TLCEval(PathD(i, b + 2, h[o])) x == Part(h[o], path) n == AnyAttrD(i, b + 20, x, path # <<>>)
       IN [m |-> "set", o |-> o, path |-> path, n |-> n, v |-> IF n \in DOMAIN x.at THEN ValueD(i, b + 30, x, n) ELSE IntV(1)]
N == 6
Init == InitRun(K)
Next == StartRun(First) \/ MoreRun(First, CallK, N)
Spec == Init /\ [][Next]_vars

\* every attribute holds a value of its type, after any history
RECURSIVE WellTyped(_)
WellTyped(o) == \A n \in DOMAIN o.at : LET v == o.at[n] IN
  /\ Accepts(TypeOf(o.cls, n), v)
  /\ v[1] = "objs" => \A k \in 1..Len(v[2]) : WellTyped(v[2][k])
  /\ v[1] = "omap" => \A k \in DOMAIN v[2] : WellTyped(v[2][k])
Typed == \A k \in 1..Len(heap) : WellTyped(heap[k])
RefusedKeeps == \A k \in 1..Len(log) : log[k].ans.k = "err" => log[k].ans.now = <<>>
=============================================================================

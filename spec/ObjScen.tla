------------------------------ MODULE ObjScen -------------------------------
(***************************************************************************)
(* Drawn objects of every class.  b is the first slot; an object uses the  *)
(* slots b .. b+999 (its parts included).                                  *)
(***************************************************************************)
EXTENDS Obj

Texts == << "", "a", "alpha", "B_{r}", "x y", "m" >>
Nums == << NumV(Zero), NumV(One), NumV(I(-2)), NumV(<<1, 2>>), NumV(<<-7, 4>>), IntV(3), IntV(0) >>
EntD(i, s) == NumV(RMul(<<1, 2>>, I(D(i, s, 15) - 7)))
IntD(i, s) == IntV(D(i, s, 9) - 3)
RowD(i, b, n) == Row([k \in 1..n |-> IF D(i, b, 3) = 0 THEN IntD(i, b + k) ELSE EntD(i, b + k)])
\* values of a field of this shape: real, integer or complex
GridD(i, b, sh) ==
  Arr(sh, [k \in 1..Prod(sh) |-> CASE D(i, b, 4) = 0 -> IntD(i, b + k)
    [] D(i, b, 4) = 1 -> Cpx(RMul(<<1, 2>>, I(D(i, b + k, 15) - 7)), I(D(i, b + 30 + k, 5) - 2))
    [] OTHER -> EntD(i, b + k)])
Syms2 == << Dict(<<>>), Dict([period |-> IntV(2)]), Dict([antiperiod |-> IntV(4)]), Dict([period |-> IntV(3), delta |-> NumV(<<1, 2>>)]), None >>
Pars == << Dict(<<>>), Dict([n |-> IntV(3)]), Dict([n |-> IntV(4), s |-> StrV("a")]), Dict([on |-> BoolV(TRUE), n |-> IntV(3)]), None >>
Filters == << None, Dict([a |-> List(<<StrV("r"), StrV("s")>>), b |-> List(<<StrV("u")>>)]), Dict([a |-> List(<<StrV("r")>>)]), Dict(<<>>) >>
Lists == << None, List(<<IntV(0), IntV(2), IntV(1)>>), List(<<IntV(0)>>), List(<<>>) >>
StrLists == << None, List(<<StrV("x"), StrV("_")>>), List(<<StrV("_")>>) >>
Funs == << <<"fun", "lambda x: x**2">>, <<"fun", "lambda x: 2*x">>, <<"call", 1>>, <<"call", 2>>, None >>

NormNames == << "x", "y" >>
NormCls == << "Norm_ref", "Norm_affine", "Norm_vector", "Norm_indices", "Norm_func" >>
\* one plain attribute; slots b .. b+19
PlainD(i, b, n, t) ==
  CASE n = "symmetries" -> P(i, b, Syms2)
    [] n = "FTparameters" -> P(i, b, Pars)
    [] n = "filter" -> P(i, b, Filters)
    [] n = "char_to_rm" -> P(i, b, StrLists)
    [] n \in {"delimiter", "operation", "transform"} -> IF D(i, b, 3) = 0 THEN None ELSE StrV(P(i, b + 1, Texts))
    [] t = "str" -> StrV(P(i, b, Texts))
    [] t = "bool" -> BoolV(D(i, b, 2) = 0)
    [] t = "float" -> IF D(i, b, 5) = 0 THEN None ELSE P(i, b + 1, Nums)
    [] t = "int" -> IF D(i, b, 5) = 0 THEN None ELSE IntD(i, b + 1)
    [] t = "list" -> P(i, b, Lists)
    [] t = "function" -> P(i, b, Funs)
    [] t = "ndarray" -> IF D(i, b, 5) = 0 THEN None
                        ELSE IF D(i, b, 5) = 1 THEN Row([k \in 1..(1 + D(i, b + 2, 3)) |-> StrV(P(i, b + 2 + k, Texts))])
                        ELSE RowD(i, b + 2, D(i, b + 1, 4))
    [] OTHER -> None
ObjOf(cls, at(_, _)) == LET s == AttrsOf(cls) IN
  [cls |-> cls, at |-> TLCEval([n \in {s[k][1] : k \in 1..Len(s)} |-> at(n, TypeOf(cls, n))])]
Pos(cls, n) == CHOOSE k \in 1..Len(AttrsOf(cls)) : AttrsOf(cls)[k][1] = n
NormD(i, b, cls) == ObjOf(cls, LAMBDA n, t : PlainD(i, b + 20 * Pos(cls, n), n, t))
NormsD(i, b) ==
  LET ks == CASE D(i, b, 4) = 0 -> {} [] D(i, b, 4) = 1 -> {"x"} [] D(i, b, 4) = 2 -> {"y"} [] OTHER -> {"x", "y"}
  IN OMap([k \in ks |-> NormD(i, b + (IF k = "x" THEN 1 ELSE 61), P(i, b + (IF k = "x" THEN 2 ELSE 62), NormCls))])
\* an axis on its own (any content)
AxisObjD(i, b, cls) ==
  ObjOf(cls, LAMBDA n, t : IF n = "normalizations" THEN NormsD(i, b + 400) ELSE PlainD(i, b + 20 * Pos(cls, n), n, t))
\* an axis of a field: its stored length is n
AxisLenD(i, b, cls, len) ==
  ObjOf(cls, LAMBDA n, t :
    CASE n = "values" -> RowD(i, b + 1, len)
      [] n = "normalizations" -> NormsD(i, b + 400)
      [] n = "number" -> IntV(len)
      [] n = "initial" -> NumV(I(D(i, b + 2, 3)))
      [] n = "final" -> NumV(I(D(i, b + 2, 3) + 1 + D(i, b + 3, 3)))
      [] n = "step" -> None
      [] OTHER -> PlainD(i, b + 20 * Pos(cls, n), n, t))
AxCls == << "Data1D", "DataLinspace", "DataPattern" >>
AxesD(i, b, sh) == Objs([k \in 1..Len(sh) |-> AxisLenD(i, b + 1000 * k, P(i, b + 1 + k, AxCls), sh[k])])
ShapeD(i, b) == [k \in 1..(1 + D(i, b, 2)) |-> 1 + D(i, b + k, 3)]
\* a field; slots b .. b+6999
FieldObjD(i, b, cls) ==
  LET sh == ShapeD(i, b) IN
  ObjOf(cls, LAMBDA n, t :
    CASE n = "axes" -> AxesD(i, b + 10, sh)
      [] n = "values" -> GridD(i, b + 20, sh)
      [] n = "normalizations" -> NormsD(i, b + 500)
      [] OTHER -> PlainD(i, b + 200 + 20 * Pos(cls, n), n, t))
DualObjD(i, b) ==
  LET s1 == ShapeD(i, b) s2 == ShapeD(i, b + 5) IN
  ObjOf("DataDual", LAMBDA n, t :
    CASE n \in {"axes", "values"} -> None
      [] n = "axes_dt" -> AxesD(i, b + 10, s1)
      [] n = "values_dt" -> GridD(i, b + 20, s1)
      [] n = "axes_df" -> AxesD(i, b + 3010, s2)
      [] n = "values_df" -> GridD(i, b + 120, s2)
      [] n = "normalizations" -> NormsD(i, b + 500)
      [] OTHER -> PlainD(i, b + 200 + 20 * Pos("DataDual", n), n, t))
VecObjD(i, b) ==
  LET ks == P(i, b, << {"radial"}, {"comp_x", "comp_y"}, {"radial", "axial"}, {"radial", "tangential", "axial"} >>)
      off(k) == CASE k \in {"radial", "comp_x"} -> 10000 [] k \in {"tangential", "comp_y"} -> 20000 [] OTHER -> 30000
  IN ObjOf("VectorField", LAMBDA n, t :
       IF n = "components" THEN OMap([k \in ks |-> FieldObjD(i, b + off(k), P(i, b + 1, << "DataTime", "DataFreq", "DataND" >>))])
       ELSE PlainD(i, b + 20 * Pos("VectorField", n), n, t))
AllCls == << "Data1D", "DataLinspace", "DataPattern", "DataND", "DataTime", "DataFreq", "DataDual", "VectorField",
             "Norm_ref", "Norm_affine", "Norm_vector", "Norm_indices", "Norm_func", "Normalization", "Data", "RequestedAxis" >>
ObjD(i, b, cls) ==
  CASE cls \in AxisClasses \cup {"Data"} -> AxisObjD(i, b, cls)
    [] cls \in {"DataND", "DataTime", "DataFreq"} -> FieldObjD(i, b, cls)
    [] cls = "DataDual" -> DualObjD(i, b)
    [] cls = "VectorField" -> VecObjD(i, b)
    [] OTHER -> NormD(i, b, cls)

(* ----------------------- a part and a new value -------------------------- *)
\* descend to a drawn part; slots b, b+1, ...
SetToSeqK(S) == LET RECURSIVE F(_)
                    F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
                IN F(S)
RECURSIVE PathD(_, _, _)
PathD(i, b, o) ==
  LET S == SetToSeqK(Inner(o)) IN
  IF S = <<>> \/ D(i, b, 3) = 0 THEN <<>>
  ELSE LET st == P(i, b + 1, S) IN <<st>> \o PathD(i, b + 2, Part(o, <<st>>))
\* attributes that keep a field consistent when they change alone
Loose(o, path, n) ==
  LET x == Part(o, path) IN
  IF x.cls \in AxisClasses /\ path # <<>> THEN n \notin {"number", "initial", "final", "step", "values", "include_endpoint"}
  ELSE IF x.cls \in NDClasses THEN n \notin {"axes", "values", "axes_dt", "axes_df", "components"}
  ELSE n # "components"
AttrSeq(x) == [k \in 1..Len(AttrsOf(x.cls)) |-> AttrsOf(x.cls)[k][1]]
AttrD(i, b, o, path) == LET s == SelectSeq(AttrSeq(Part(o, path)), LAMBDA n : Loose(o, path, n)) IN s[D(i, b, Len(s)) + 1]
NewValD(i, b, cls, n) == IF n = "normalizations" THEN NormsD(i, b) ELSE PlainD(i, b, n, TypeOf(cls, n))
\* the object with one drawn attribute changed
ChangedD(i, b, o) ==
  LET path == PathD(i, b, o) n == AttrD(i, b + 20, o, path)
  IN [path |-> path, n |-> n, v |-> NewValD(i, b + 30, Part(o, path).cls, n)]
=============================================================================

-------------------------------- MODULE Obj ---------------------------------
(***************************************************************************)
(* Objects as declared content: every class is a list of attributes with a *)
(* type; an object is its class and one value per attribute.               *)
(*                                                                         *)
(*   values   <<"none">>  <<"str", s>>  <<"bool", b>>                       *)
(*            <<"int", n>>  <<"num", rational>>  <<"cpx", re, im>>          *)
(*            <<"arr", shape, entries>>   entries numbers or texts          *)
(*            <<"list", entries>>  <<"dict", key -> value>>                 *)
(*            <<"fun", text>>  <<"call", number of a callable>>             *)
(*            <<"objs", objects>>  <<"omap", key -> object>>                *)
(*   object   [cls, at]  at: attribute -> value                             *)
(***************************************************************************)
EXTENDS Scen

None == <<"none">>
StrV(s) == <<"str", s>>
BoolV(b) == <<"bool", b>>
IntV(n) == <<"int", n>>
NumV(q) == <<"num", q>>
Cpx(a, b) == <<"cpx", a, b>>
Arr(sh, v) == <<"arr", sh, v>>
Row(v) == Arr(<<Len(v)>>, v)
List(v) == <<"list", v>>
Dict(f) == <<"dict", f>>
Objs(s) == <<"objs", s>>
OMap(f) == <<"omap", f>>

(* ------------------------------- classes -------------------------------- *)
DataAt == << <<"symbol", "str">>, <<"name", "str">>, <<"unit", "str">>, <<"normalizations", "{Normalization}">> >>
NDAt == << <<"axes", "[Data]">>, <<"FTparameters", "dict">>, <<"values", "ndarray">>, <<"is_real", "bool">> >> \o DataAt
AxAt == << <<"is_components", "bool">>, <<"symmetries", "dict">>, <<"is_overlay", "bool">> >> \o DataAt
NormAt == << <<"unit", "str">> >>
AttrsOf(cls) ==
  CASE cls = "Data" -> DataAt
    [] cls = "Data1D" -> << <<"values", "ndarray">>, <<"delimiter", "str">>, <<"sort_indices", "list">>, <<"filter", "dict">>, <<"char_to_rm", "list">> >> \o AxAt
    [] cls = "DataLinspace" -> << <<"initial", "float">>, <<"final", "float">>, <<"step", "float">>, <<"number", "int">>, <<"include_endpoint", "bool">> >> \o AxAt
    [] cls = "DataPattern" -> << <<"rebuild_indices", "list">>, <<"unique_indices", "list">>, <<"is_step", "bool">>, <<"values", "ndarray">>, <<"values_whole", "ndarray">> >> \o AxAt
    [] cls \in {"DataND", "DataTime", "DataFreq"} -> NDAt
    [] cls = "DataDual" -> << <<"axes_dt", "[Data]">>, <<"values_dt", "ndarray">>, <<"axes_df", "[Data]">>, <<"values_df", "ndarray">> >> \o NDAt
    [] cls = "VectorField" -> << <<"name", "str">>, <<"symbol", "str">>, <<"components", "{DataND}">> >>
    [] cls \in {"Normalization", "Norm_indices"} -> NormAt
    [] cls = "Norm_ref" -> << <<"ref", "float">> >> \o NormAt
    [] cls = "Norm_affine" -> << <<"slope", "float">>, <<"offset", "float">> >> \o NormAt
    [] cls = "Norm_vector" -> << <<"vector", "ndarray">> >> \o NormAt
    [] cls = "Norm_func" -> << <<"function", "function">> >> \o NormAt
    [] cls = "RequestedAxis" ->
         << <<"name", "str">>, <<"corr_name", "str">>, <<"unit", "str">>, <<"corr_unit", "str">>, <<"extension", "str">>,
            <<"values", "ndarray">>, <<"indices", "list">>, <<"input_data", "ndarray">>, <<"operation", "str">>, <<"index", "int">>,
            <<"transform", "str">>, <<"is_pattern", "bool">>, <<"rebuild_indices", "ndarray">>, <<"is_step", "bool">>,
            <<"noct", "int">>, <<"corr_values", "ndarray">>, <<"is_components", "bool">> >>
NDClasses == {"DataND", "DataTime", "DataFreq", "DataDual"}
AxisClasses == {"Data1D", "DataLinspace", "DataPattern"}
NormClasses == {"Normalization", "Norm_ref", "Norm_affine", "Norm_vector", "Norm_indices", "Norm_func"}
DataClasses == NDClasses \cup AxisClasses \cup {"Data"}
TypeOf(cls, a) == LET s == AttrsOf(cls) IN s[CHOOSE k \in 1..Len(s) : s[k][1] = a][2]

(* ------------------------- equality and reports -------------------------- *)
IsNumV(v) == v[1] \in {"int", "num"}
NumOf(v) == IF v[1] = "int" THEN I(v[2]) ELSE v[2]
RECURSIVE Same(_, _)
SameSeq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Same(s[k], t[k])
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : Same(f[k], g[k])
SameObj(a, b) == a.cls = b.cls /\ \A n \in DOMAIN a.at : Same(a.at[n], b.at[n])
Same(v, w) ==
  IF IsNumV(v) /\ IsNumV(w) THEN NumOf(v) = NumOf(w)
  ELSE IF v[1] # w[1] THEN FALSE
  ELSE CASE v[1] = "arr" -> v[2] = w[2] /\ SameSeq(v[3], w[3])
         [] v[1] = "list" -> SameSeq(v[2], w[2])
         [] v[1] = "dict" -> SameMap(v[2], w[2])
         [] v[1] = "objs" -> Len(v[2]) = Len(w[2]) /\ \A k \in 1..Len(v[2]) : SameObj(v[2][k], w[2][k])
         [] v[1] = "omap" -> DOMAIN v[2] = DOMAIN w[2] /\ \A k \in DOMAIN v[2] : SameObj(v[2][k], w[2][k])
         [] OTHER -> v = w

\* the differences: names of the attributes that differ, at the depth where they differ.
\* exact: the name itself is reported, otherwise some text about that attribute
RECURSIVE Diff(_, _, _)
DiffAt(v, w, name) ==
  LET whole == {[p |-> name, exact |-> FALSE]} IN
  IF v[1] = "objs" /\ w[1] = "objs" /\ Len(v[2]) = Len(w[2])
  THEN UNION {Diff(v[2][k], w[2][k], name \o "[" \o ToString(k - 1) \o "]") : k \in 1..Len(v[2])}
  ELSE IF v[1] = "omap" /\ w[1] = "omap" /\ DOMAIN v[2] = DOMAIN w[2]
  THEN UNION {Diff(v[2][k], w[2][k], name \o "[" \o k \o "]") : k \in DOMAIN v[2]}
  ELSE IF {v[1], w[1]} \cap {"objs", "omap"} # {} THEN IF Same(v, w) THEN {} ELSE whole
  ELSE IF Same(v, w) THEN {} ELSE {[p |-> name, exact |-> TRUE]}
Diff(a, b, name) ==
  IF a.cls # b.cls THEN {[p |-> name, exact |-> FALSE]}
  ELSE UNION {DiffAt(a.at[n], b.at[n], name \o "." \o n) : n \in DOMAIN a.at}

(* --------------------------- parts of an object -------------------------- *)
\* a path is a sequence of <<attribute, key>>; the parts that are objects themselves
Inner(o) == UNION {
  LET v == o.at[n] IN
  IF v[1] = "objs" THEN {<<n, k>> : k \in 1..Len(v[2])}
  ELSE IF v[1] = "omap" THEN {<<n, k>> : k \in DOMAIN v[2]} ELSE {} : n \in DOMAIN o.at}
RECURSIVE Part(_, _)
Part(o, path) == IF path = <<>> THEN o ELSE Part(o.at[path[1][1]][2][path[1][2]], Tail(path))
RECURSIVE Put(_, _, _)
Put(o, path, x) ==
  IF path = <<>> THEN x
  ELSE LET n == path[1][1] k == path[1][2]
       IN [o EXCEPT !.at = [@ EXCEPT ![n] = <<@[1], [@[2] EXCEPT ![k] = Put(@, Tail(path), x)]>>]]
SetAt(o, path, n, v) == LET x == Part(o, path) IN Put(o, path, [x EXCEPT !.at = [@ EXCEPT ![n] = v]])

\* the entry of arrays overwritten by "poke"
Poked(v) == CASE v[1] = "arr" -> Arr(v[2], [k \in 1..Len(v[3]) |-> IF v[3][k][1] = "str" THEN v[3][k] ELSE IF k = 1 THEN NumV(I(77)) ELSE v[3][k]])
              [] v[1] = "list" -> List(Append(v[2], IntV(77)))
              [] v[1] = "dict" -> Dict(("poke" :> IntV(77)) @@ [k \in DOMAIN v[2] |-> IF v[2][k][1] = "list" THEN List(Append(v[2][k][2], IntV(77))) ELSE v[2][k]])
              [] OTHER -> v

(* ------------------------------ refusals --------------------------------- *)
\* refused or accepted, and what is stored then.  Lists become arrays, numbers
\* and lists become normalizations, -1 stands for the default (empty) value
Rows(v) == Len(v) > 0 /\ v[1][1] = "list"
Flat(v) == Len(v) > 0 => \A k \in 1..Len(v) : v[k][1] \in {"int", "num", "cpx", "str"} /\ (v[k][1] = "str") = (v[1][1] = "str")
IsGrid(v) == IF Rows(v) THEN \A k \in 1..Len(v) : v[k][1] = "list" /\ Flat(v[k][2]) /\ v[k][2] # <<>> /\ Len(v[k][2]) = Len(v[1][2])
             ELSE Flat(v)
ToGrid(v) == IF Rows(v) THEN LET m == Len(v[1][2]) IN
               Arr(<<Len(v), m>>, [j \in 1..(Len(v) * m) |-> v[((j - 1) \div m) + 1][2][((j - 1) % m) + 1]])
             ELSE Row(v)
Default(t) == CASE t = "ndarray" -> Row(<<>>) [] t = "list" -> List(<<>>) [] t = "dict" -> Dict(<<>>)
                [] t = "[Data]" -> Objs(<<>>) [] OTHER -> OMap(<<>>)
HasDefault(t) == t \in {"ndarray", "list", "dict", "[Data]", "{Normalization}", "{DataND}"}
NormOf(v) == IF v[1] \in {"int", "num"} THEN [cls |-> "Norm_ref", at |-> [ref |-> v, unit |-> StrV("SI")]]
             ELSE [cls |-> "Norm_vector", at |-> [vector |-> IF v[1] = "list" THEN ToGrid(v[2]) ELSE v, unit |-> StrV("SI")]]
Stored(t, v) ==
  IF v = IntV(-1) /\ HasDefault(t) THEN Default(t)
  ELSE IF t = "ndarray" /\ v[1] = "list" THEN ToGrid(v[2])
  ELSE IF t \in {"{Normalization}", "{DataND}"} /\ v[1] = "dict" THEN OMap([k \in DOMAIN v[2] |-> NormOf(v[2][k])])
  ELSE v
Instance(v, S) == \A k \in 1..Len(v) : v[k].cls \in S
\* is the value accepted by an attribute of this type
Accepts(t, v) ==
  IF v[1] = "none" \/ (v = IntV(-1) /\ HasDefault(t)) THEN TRUE
  ELSE CASE t = "str" -> v[1] = "str"
         [] t = "bool" -> v[1] = "bool"
         [] t = "float" -> v[1] \in {"int", "num"}
         [] t = "int" -> v[1] = "int" \/ (v[1] = "num" /\ RIsInt(v[2]))
         [] t = "dict" -> v[1] = "dict"
         [] t = "list" -> v[1] = "list"
         [] t = "ndarray" -> v[1] = "arr" \/ (v[1] = "list" /\ IsGrid(v[2]))
         [] t = "function" -> v[1] \in {"fun", "call"}
         [] t = "[Data]" -> v[1] = "objs" /\ Instance(v[2], DataClasses)
         [] t = "{Normalization}" -> (v[1] = "omap" /\ \A k \in DOMAIN v[2] : v[2][k].cls \in NormClasses) 
              \/ (v[1] = "dict" /\ \A k \in DOMAIN v[2] : v[2][k][1] \in {"int", "num", "arr"} \/ (v[2][k][1] = "list" /\ IsGrid(v[2][k][2])))
         [] t = "{DataND}" -> (v[1] = "omap" /\ \A k \in DOMAIN v[2] : v[2][k].cls \in NDClasses) \/ (v[1] = "dict" /\ DOMAIN v[2] = {})

\* stored length of an axis
StepsOf(at) == RDiv(RSub(NumOf(at.final), NumOf(at.initial)), NumOf(at.step))
AxisLen(x) ==
  CASE x.cls = "DataLinspace" ->
         IF x.at.number # None THEN NumOf(x.at.number)[1]
         ELSE StepsOf(x.at)[1] + (IF x.at.include_endpoint = BoolV(TRUE) THEN 1 ELSE 0)
    [] OTHER -> Prod(x.at.values[2])
\* dimensions of length one do not count in the given values
NoOnes(sh) == SelectSeq(sh, LAMBDA n : n # 1)
FieldShape(o) == [k \in 1..Len(o.at.axes[2]) |-> AxisLen(o.at.axes[2][k])]
Sound(x) == /\ x.cls \in AxisClasses
            /\ IF x.cls = "DataLinspace"
               THEN x.at.number # None \/ (x.at.initial # None /\ x.at.final # None /\ x.at.step # None /\ NumOf(x.at.step)[1] # 0
                                            /\ StepsOf(x.at)[2] = 1 /\ StepsOf(x.at)[1] > 0)
               ELSE x.at.values # None
SoundAxes(o) == o.at.axes[1] = "objs" /\ o.at.axes[2] # <<>> /\ \A k \in 1..Len(o.at.axes[2]) : Sound(o.at.axes[2][k])
Fits(o, v) == NoOnes(v[2]) = NoOnes(FieldShape(o))
=============================================================================

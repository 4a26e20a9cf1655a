------------------------------- MODULE ObjRun -------------------------------
(***************************************************************************)
(* A pool of objects and what can happen to it: building, copying, writing *)
(* and reading back, changing an attribute, overwriting an array in place, *)
(* comparing.  heap is the pool; objects of the pool share nothing.        *)
(***************************************************************************)
EXTENDS ObjScen

\* callables have no textual form: they are dropped (documented)
RECURSIVE Textual(_)
TextV(v) == CASE v[1] = "call" -> None
              [] v[1] = "objs" -> Objs([k \in 1..Len(v[2]) |-> Textual(v[2][k])])
              [] v[1] = "omap" -> OMap([k \in DOMAIN v[2] |-> Textual(v[2][k])])
              [] OTHER -> v
Textual(o) == [o EXCEPT !.at = TLCEval([n \in DOMAIN o.at |-> TextV(o.at[n])])]

ErrType == [k |-> "err", exc |-> <<"CheckTypeError">>]
\* the documented error, when the value is at least of the right kind of container
Mixed(t, v) == t \in {"[Data]", "{DataND}", "{Normalization}"} /\ v[1] \in {"list", "dict", "arr", "str"}
Refusal(t, v) == IF Mixed(t, v) THEN [k |-> "err"] ELSE ErrType
Step(h, c) ==
  CASE c.m = "new" -> [k |-> "ok", pool |-> Append(h, c.x)]
    [] c.m \in {"copy", "pkl"} -> [k |-> "ok", pool |-> Append(h, h[c.o])]
    [] c.m \in {"dict", "json", "str", "dir", "bare", "inlist", "inmap"} -> [k |-> "ok", pool |-> Append(h, Textual(h[c.o]))]
    [] c.m = "set" -> LET x == Part(h[c.o], c.path) IN
         IF c.n \notin DOMAIN x.at THEN [k |-> "err", exc |-> <<"FrozenError">>, pool |-> h]
         ELSE LET t == TypeOf(x.cls, c.n) v == Stored(t, c.v) IN
              IF ~Accepts(t, c.v) THEN Refusal(t, c.v) @@ [pool |-> h]
              ELSE IF c.n = "values" /\ x.cls \in NDClasses /\ x.at.axes # None
              THEN IF v[1] = "none" THEN [k |-> "unspec", pool |-> h]
                   ELSE IF ~Fits(x, v) THEN [k |-> "err", exc |-> <<"CheckDimError">>, pool |-> h]
                   ELSE [k |-> "ok", pool |-> [h EXCEPT ![c.o] = SetAt(@, c.path, c.n, Arr(FieldShape(x), v[3]))]]
              ELSE [k |-> "ok", pool |-> [h EXCEPT ![c.o] = SetAt(@, c.path, c.n, v)]]
    \* building an object with one bad attribute
    [] c.m = "build" -> LET t == TypeOf(c.x.cls, c.n) v == Stored(t, c.v) x == [c.x EXCEPT !.at = [@ EXCEPT ![c.n] = v]] IN
         IF ~Accepts(t, c.v) THEN Refusal(t, c.v) @@ [pool |-> h]
         ELSE IF c.n \in {"values", "axes"} /\ x.cls \in NDClasses /\ x.cls # "DataDual"
         THEN IF v[1] = "none" THEN [k |-> "unspec", pool |-> h]
              ELSE IF Fits(x, x.at.values)
              THEN [k |-> "ok", pool |-> Append(h, [x EXCEPT !.at = [@ EXCEPT !.values = Arr(FieldShape(x), x.at.values[3])]])]
              ELSE [k |-> "err", exc |-> <<"CheckDimError">>, pool |-> h]
         ELSE [k |-> "ok", pool |-> Append(h, x)]
    [] c.m = "poke" -> [k |-> "ok", pool |-> [h EXCEPT ![c.o] = SetAt(@, c.path, c.n, Poked(Part(@, c.path).at[c.n]))]]
    [] c.m = "eq" -> [k |-> "ok", b |-> SameObj(h[c.o], h[c.p]), pool |-> h]
    [] c.m = "cmp" -> LET d == Diff(h[c.o], h[c.p], "self") IN
         [k |-> "ok", d |-> SetToSeqK({x \in d : \A j \in 1..Len(c.ign) : x.p # c.ign[j]}), pool |-> h]

\* what is reported of a step: the answer and the objects that are new or changed
Reported(h, r) == [n \in DOMAIN r \ {"pool"} |-> r[n]] @@
  [now |-> SelectSeq([j \in 1..Len(r.pool) |-> [o |-> j, x |-> r.pool[j]]], LAMBDA y : y.o > Len(h) \/ h[y.o] # y.x)]

\* drawn calls on a pool; slots b .. b+99
SetD(i, b, h) ==
  LET o == D(i, b, Len(h)) + 1 c == ChangedD(i, b + 1, h[o])
  IN [m |-> "set", o |-> o, path |-> c.path, n |-> c.n, v |-> c.v]
PokeD(i, b, h) ==
  LET o == D(i, b, Len(h)) + 1 path == PathD(i, b + 1, h[o])
      x == Part(h[o], path)
      s == SelectSeq(AttrSeq(x), LAMBDA n : x.at[n][1] \in {"arr", "list", "dict"} /\ n \notin {"rebuild_indices", "unique_indices"})
  IN IF s = <<>> THEN SetD(i, b + 30, h) ELSE [m |-> "poke", o |-> o, path |-> path, n |-> s[D(i, b + 20, Len(s)) + 1]]
CloneD(i, b, h, ways) ==
  [m |-> P(i, b, ways), o |-> D(i, b + 1, Len(h)) + 1, h |-> D(i, b + 2, 2)]
EqD(i, b, h) == [m |-> "eq", o |-> D(i, b, Len(h)) + 1, p |-> D(i, b + 1, Len(h)) + 1]
CmpD(i, b, h) ==
  LET o == D(i, b, Len(h)) + 1 p == D(i, b + 1, Len(h)) + 1
      d == SetToSeqK({x \in Diff(h[o], h[p], "self") : x.exact})
      add == D(i, b + 2, 3) = 0
  IN [m |-> "cmp", o |-> o, p |-> p, add |-> add,
      ign |-> IF ~add /\ d # <<>> /\ D(i, b + 3, 3) = 0 THEN <<d[D(i, b + 4, Len(d)) + 1].p>> ELSE <<>>]

\* behaviours of n calls: first(i) is the pool, call(i, k, h) the k-th call
InitRun(k) == cid \in 1..k /\ heap = <<>> /\ log = <<>>
StartRun(first(_)) ==
  /\ heap = <<>>
  /\ \E i \in {cid} : heap' = TLCEval(first(i)) /\ log' = <<>> /\ cid' = i
MoreRun(first(_), call(_, _, _), n) ==
  /\ heap # <<>> /\ Len(log) < n
  /\ \E i \in {cid} :
       LET c == TLCEval(call(i, Len(log) + 1, heap)) r == TLCEval(Step(heap, c)) IN
       /\ heap' = r.pool /\ log' = Append(log, [call |-> c, ans |-> TLCEval(Reported(heap, r))]) /\ cid' = i
       /\ Len(log') = n => Write([id |-> i, objs |-> <<>>, pool |-> first(i), steps |-> log'])
=============================================================================

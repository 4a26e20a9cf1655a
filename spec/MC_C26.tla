------------------------------- MODULE MC_C26 -------------------------------
(* Fields with component axes: named (one to three items each), numbered,    *)
(* with a declared order of contribution; asked by index, range, filter and  *)
(* largest contribution, also on extracted fields.                           *)
EXTENDS ScenF

ItemLists == << << "r=0", "r=2", "r=-2", "r=22" >>, << "radial", "axial", "radia" >>, << "stator", "rotor" >> >>
FilterKeys == << "wavenumber", "direction", "application" >>
Delims == << ", ", "-", "_", "; " >>
RECURSIVE Grid(_, _)
Grid(lists, k) == IF k > Len(lists) THEN << <<>> >>
  ELSE LET rest == Grid(lists, k + 1)
       IN [j \in 1..(Len(lists[k]) * Len(rest)) |-> <<lists[k][((j - 1) \div Len(rest)) + 1]>> \o rest[((j - 1) % Len(rest)) + 1]]
RECURSIVE Glue(_, _, _)
Glue(items, sep, j) == IF j = Len(items) THEN items[j] ELSE items[j] \o sep \o Glue(items, sep, j + 1)
DelimsFor(i, b) == P(i, b + 1, << ", ", "; ", " | ", "_" >>)
\* axis of named components; slots b .. b+60
NamedAxis(i, b, name) ==
  LET nk == 1 + D(i, b, 3)
      ord == TLCEval(Perm(i, b + 40, SeqOf(3)))                       \* the items in any order within a name
      lists == TLCEval([k \in 1..nk |-> SubSeq(ItemLists[ord[k]], 1, 1 + D(i, b + 2 + k, Len(ItemLists[ord[k]])))])
      all == TLCEval(Grid(lists, 1))
      part0 == TLCEval(Perm(i, b + 50, all))
      part == TLCEval(SubSeq(part0, 1, 1 + D(i, b + 6, Len(part0))))
      sep == DelimsFor(i, b)
      \* a key may lack one of the items of the names
      lack == IF D(i, b + 14, 8) = 0 THEN 1 + D(i, b + 15, nk) ELSE 0
      keys0 == [k \in 1..nk |-> [key |-> FilterKeys[ord[k]], items |-> IF k = lack THEN SubSeq(lists[k], 1, Len(lists[k]) - 1) ELSE lists[k]]]
      n == Len(part)
  IN [MkAxis(name, "", 0, <<>>, NoSym) EXCEPT !.comp = TRUE, !.lab = [j \in 1..n |-> Glue(part[j], sep, 1)]]
     @@ [delimiter |-> sep, keys |-> Perm(i, b + 8, keys0), part |-> part, is_overlay |-> D(i, b + 12, 4) = 0,
         sort_indices |-> IF D(i, b + 13, 2) = 0 THEN LET s == TLCEval(Perm(i, b + 80, SeqOf(n))) IN TLCEval([j \in 1..n |-> s[j] - 1]) ELSE <<>>]
NumAxis(i, b, name) ==
  LET n == 1 + D(i, b, 6) s0 == TLCEval(Perm(i, b + 20, SeqOf(n))) ns == TLCEval([j \in 1..n |-> (s0[j] * 3) - 7])
  IN [MkAxis(name, "", 0, <<>>, NoSym) EXCEPT !.comp = TRUE, !.lab = [j \in 1..n |-> ToString(ns[j])]]
     @@ [nums |-> ns, is_overlay |-> D(i, b + 1, 4) = 0,
         sort_indices |-> IF D(i, b + 2, 3) = 0 THEN LET s == TLCEval(Perm(i, b + 30, SeqOf(n))) IN TLCEval([j \in 1..n |-> s[j] - 1]) ELSE <<>>]
Layouts == << <<"loadcases">>, <<"loadcases", "x">>, <<"x", "loadcases">>, <<"time", "loadcases">>, <<"loadcases", "angle">>, <<"loadcases", "order">>,
              <<"order", "x">>, <<"time", "order">>, <<"x", "loadcases", "angle">>, <<"order", "time", "loadcases">> >>
AxisC(i, b, name, maxN) ==
  IF name = "loadcases" THEN NamedAxis(i, b, name) ELSE IF name = "order" THEN NumAxis(i, b, name)
  ELSE AxisD(i, b, name, 1, maxN, Syms)
FieldC(i) ==
  LET L == P(i, 1, Layouts)
      axes == [d \in 1..Len(L) |-> AxisC(i, 200 * d, L[d], IF Len(L) = 3 THEN 2 ELSE 3)]
  IN [FieldOf(i, axes) EXCEPT !.cls = IF \E d \in 1..Len(L) : L[d] \in {"time", "angle"} THEN "DataTime" ELSE "DataND"]
CompReq(i, b, a) ==
  LET n == Len(a.lab) k == D(i, b, 12) IN
  CASE k = 0 -> Whole(a.name)
    [] k = 1 -> RQ(a.name, "all")
    [] k = 2 -> Idx(a.name, <<D(i, b + 1, 2 * n) - n>>)
    [] k = 3 -> Idx(a.name, <<D(i, b + 1, n), D(i, b + 2, n)>>)
    [] k = 4 -> Idx(a.name, <<n - 1, D(i, b + 1, n), 0>>)
    [] k = 5 -> LET s == D(i, b + 1, n) IN Range(a.name, s, s + 1 + D(i, b + 2, n - s))
    [] k = 6 -> Op(a.name, P(i, b + 1, <<"sum", "mean", "max", "min", "rms", "rss">>))
    [] k = 7 -> Idx(a.name, <<n + D(i, b + 1, 2)>>)
    [] OTHER -> [RQ(a.name, "largest") EXCEPT !.ns = <<1 + D(i, b + 1, n + 1)>>]
AxReq(i, b, a) ==
  IF a.comp THEN CompReq(i, b, a)
  ELSE CASE D(i, b, 5) = 0 -> Op(a.name, P(i, b + 1, <<"sum", "mean", "max">>))
         [] D(i, b, 5) = 1 -> SelD(i, b + 1, a, "")
         [] OTHER -> Whole(a.name)
ReqC(i, b, o) ==
  LET S == SelectIdx(Len(o.axes), LAMBDA d : D(i, b + 90 + d, 10) # 0)
  IN Perm(i, b + 95, [j \in 1..Len(S) |-> AxReq(i, b + 20 * S[j], o.axes[S[j]])])
CompsOf(o) == SelectIdx(Len(o.axes), LAMBDA d : o.axes[d].name = "loadcases")
WantD(i, b, a) ==
  LET w == [k \in 1..Len(a.keys) |-> [key |-> a.keys[k].key,
              items |-> SelectSeq(a.keys[k].items, LAMBDA t : D(i, b + 10 * k + Len(t), 3) # 0)]]
  IN CASE D(i, b, 12) = 0 -> SubSeq(w, 1, Len(w) - 1)                                   \* a key is missing
       [] D(i, b, 12) = 1 -> [w EXCEPT ![1].key = "other"]                              \* an unknown key
       [] D(i, b, 12) = 2 -> Append(w, [key |-> "other", items |-> <<"r=0">>])
       [] OTHER -> Perm(i, b + 1, w)
\* requests by filter: the indices of the wanted components
Kept(a, want) == LET f == Filtered(a, want) IN
  IF f.k # "ok" THEN <<>> ELSE LET s == SelectIdx(Len(f.ns), LAMBDA j : f.ns[j] = 1) IN [j \in 1..Len(s) |-> s[j] - 1]
FilterReq(i, b, o) ==
  LET r == ReqC(i, b, o) IN
  [j \in 1..Len(r) |->
     IF r[j].ax # "loadcases" THEN r[j]
     ELSE LET a == o.axes[CompsOf(o)[1]] ns == Kept(a, WantD(i, b + 150, a)) IN IF ns = <<>> THEN r[j] ELSE Idx("loadcases", ns)]
CallsC(i, o) ==
  LET has == CompsOf(o) # <<>>
      c(k) == LET b == 3000 + 400 * k z == D(i, b, 5) IN
              IF has /\ z = 0 THEN [m |-> "get_filter", o |-> 1, d |-> CompsOf(o)[1], want |-> WantD(i, b + 1, o.axes[CompsOf(o)[1]])]
              ELSE IF has /\ z = 1 THEN Get(1, FilterReq(i, b + 1, o))
              ELSE Get(1, ReqC(i, b + 1, o))
      first == TLCEval([k \in 1..4 |-> c(k)])
      t == Take(1, ReqC(i, 6000, o), "")
      x == TLCEval(Run(<<o>>, <<t>>).heap)
  IN IF Len(x) = 1 \/ x[2].axes = <<>> THEN first ELSE first \o <<t, Get(2, ReqC(i, 6500, x[2])), Get(2, ReqC(i, 7000, x[2]))>>
K == Budget(1200, 10000)
Init == cid \in 1..K /\ heap = <<>> /\ log = <<>>
Next == log = <<>> /\ \E i \in {cid} : LET o == TLCEval(FieldC(i)) IN CallN(i, <<o>>, TLCEval(CallsC(i, o)))
Spec == Init /\ [][Next]_vars

\* asking every item keeps every component; a filter keeps those of both of two filters
AllItems(a) == [k \in 1..Len(a.keys) |-> [key |-> a.keys[k].key, items |-> a.keys[k].items]]
FilterMeets ==
  (heap # <<>> /\ CompsOf(heap[1]) # <<>>) =>
    LET a == heap[1].axes[CompsOf(heap[1])[1]]
        ok == {k \in 1..Len(log) : log[k].call.m = "get_filter" /\ log[k].ans.k = "ok"}
    IN /\ LET f == Filtered(a, AllItems(a)) IN f.k = "ok" => \A j \in 1..Len(a.lab) : f.ns[j] = 1
       \* a component is kept exactly when every one of its items is
       /\ \A k \in ok : \A j \in 1..Len(a.lab) :
            log[k].ans.ns[j] = 1 <=> \A m \in 1..Len(a.part[j]) : \E w \in 1..Len(log[k].call.want) :
                                        \E q \in 1..Len(log[k].call.want[w].items) : log[k].call.want[w].items[q] = a.part[j][m]
\* the n largest of an extracted field are the components that were largest among the extracted ones
LargestAgree ==
  (Len(heap) = 2) => \A d \in 1..Len(heap[2].axes) :
    LET b == heap[2].axes[d] IN
    (b.comp /\ "sort_indices" \in DOMAIN b /\ b.sort_indices # <<>> /\ Cardinality({b.lab[j] : j \in 1..Len(b.lab)}) = Len(b.lab)) =>
      LET a == heap[1].axes[CHOOSE q \in 1..Len(heap[1].axes) : heap[1].axes[q].name = b.name]
          la == [j \in 1..Len(a.sort_indices) |-> a.lab[a.sort_indices[j] + 1]]
          lb == [j \in 1..Len(b.sort_indices) |-> b.lab[b.sort_indices[j] + 1]]
      IN lb = SelectSeq(la, LAMBDA t : \E j \in 1..Len(b.lab) : b.lab[j] = t)
=============================================================================

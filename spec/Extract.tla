------------------------------ MODULE Extract -------------------------------
(***************************************************************************)
(* Fields extracted by a request.                                          *)
(***************************************************************************)
EXTENDS Field

(* ---------------------- units of derived fields ------------------------- *)
\* the unit of a field is unit (written unum/uden) times the powers ud = <<[u, p], ...>> of axis units;
\* the frequency axis stands for time and the angle axis for the arc length
DerUnit(u) == IF u = "Hz" THEN "s" ELSE IF u = "rad" THEN "m" ELSE u
DerPower(op) == IF op \in {"integrate", "antiderivate", "integrate_local"} THEN 1 ELSE IF op = "derivate" THEN -1 ELSE 0
RECURSIVE Joined(_, _)
Joined(s, j) == IF j > Len(s) THEN "" ELSE IF j = Len(s) THEN s[j] ELSE s[j] \o "*" \o Joined(s, j + 1)
Spell(unum, uden, ud) ==
  LET up == SelectSeq(ud, LAMBDA p : p.p > 0) down == SelectSeq(ud, LAMBDA p : p.p < 0)
      num == (IF unum \in {"", "dimless"} THEN <<>> ELSE <<unum>>) \o [j \in 1..Len(up) |-> up[j].u]
      den == (IF uden = "" THEN <<>> ELSE <<uden>>) \o [j \in 1..Len(down) |-> down[j].u]
  IN Joined(num, 1) \o (IF den = <<>> THEN "" ELSE "/" \o Joined(den, 1))

(* ------------------------------ extraction ------------------------------ *)
AxisUnit(o, d, r) == IF IsFft(o, d, r) THEN SpectralAxis(o.axes[d], o.real).unit ELSE o.axes[d].unit
\* the extracted axis keeps the symmetry when the stored part, or every line, is extracted
KeepsSym(o, d, r, p) ==
  /\ ~o.axes[d].pat.on
  /\ \/ p.k = "keep" /\ p.op # "integrate_local"
     \/ p.k = "sel" /\ IF IsFft(o, d, r) \/ IsSpectral(o.axes[d]) THEN r.f \in {"whole", "small"} ELSE r.f = "small"
ExtAxis(o, d, r, p) ==
  LET a == o.axes[d]
      b == IF IsFft(o, d, r) THEN SpectralAxis(a, o.real) ELSE a
      k == KeepsSym(o, d, r, p)
      \* components kept, with their order of contribution among themselves
      ks == [j \in 1..Len(p.w) |-> p.w[j][1][1]]
      lab == [a EXCEPT !.lab = [j \in 1..Len(ks) |-> a.lab[ks[j]]]]
      num == IF Numbered(a) THEN [lab EXCEPT !.nums = [j \in 1..Len(ks) |-> a.nums[ks[j]]]] ELSE lab
  IN IF a.comp /\ Declared(a)
     THEN [num EXCEPT !.sort_indices =
             LET s == SelectSeq(LargestFirst(a), LAMBDA q : \E j \in 1..Len(ks) : ks[j] = q)
             IN [m \in 1..Len(s) |-> (CHOOSE j \in 1..Len(ks) : ks[j] = s[m] /\ \A h \in 1..(j - 1) : ks[h] # s[m]) - 1]]
     ELSE IF a.comp THEN num
     ELSE [b EXCEPT !.x = p.x, !.e = p.e, !.lin = NoLin, !.pat = NoPat,
             !.unit = IF r.u = "" THEN AxisUnit(o, d, r) ELSE r.u,
             !.sym = IF k THEN b.sym ELSE NoSym,
             !.delta = IF ~k THEN Zero ELSE IF r.u = "" THEN b.delta ELSE RMul(Factor(b.unit, r.u).r, b.delta),
             !.turns = IF k THEN b.turns ELSE 1]
ExtractOn(o, reqs, u) ==
  LET A == TLCEval(AnswerOn(o, reqs, u, FALSE)) P == TLCEval(Plans(o, reqs))
      Rq == TLCEval([d \in 1..Len(o.axes) |-> ReqOn(o, d, reqs)])
      D == Requested(o, reqs)
      kept == SelectSeq(D, LAMBDA d : P[d].k # "red")
      ops == SelectSeq(D, LAMBDA d : P[d].k \in {"red", "keep"} /\ DerPower(P[d].op) # 0)
      names == {Rq[D[j]].ax : j \in 1..Len(D)}
  IN IF A.k # "ok" THEN A
     \* axes in a normalization: their unit is not stated
     ELSE IF \E j \in 1..Len(kept) : NormNamed(o.axes[kept[j]], Rq[kept[j]].u) # {} THEN Bad("unspec")
     ELSE [k |-> "ok",
           f |-> [o EXCEPT
             !.cls = IF "time" \in names THEN "DataTime" ELSE IF "freqs" \in names THEN "DataFreq" ELSE "DataND",
             !.axes = TLCEval([j \in 1..Len(kept) |-> ExtAxis(o, kept[j], Rq[kept[j]], P[kept[j]])]),
             !.val = A.v, !.ints = FALSE,
             !.unit = IF u = "" THEN o.unit ELSE u,
             !.unum = IF u = "" THEN o.unum ELSE u, !.uden = IF u = "" THEN o.uden ELSE "",
             !.ud = o.ud \o [j \in 1..Len(ops) |->
                       [u |-> DerUnit(AxisUnit(o, ops[j], Rq[ops[j]])), p |-> DerPower(P[ops[j]].op)]]]]
Extracted(o, reqs, u) ==
  IF ~AsksDirect(o, reqs) THEN ExtractOn(o, reqs, u)
  ELSE LET A == Answer(o, reqs, u, FALSE) IN IF A.k # "ok" THEN A ELSE ExtractOn(TimeField(o), reqs, u)
=============================================================================

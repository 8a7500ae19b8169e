---------------------------- MODULE JudgeCollapse ---------------------------
(* Recorded collapses.                                                        *)
EXTENDS Collapse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Gone(e) == UNION {ToSet(e.over[k].dims) : k \in 1..Len(e.over)}
Weighted(e) == \E k \in 1..Len(e.over) : e.over[k].std = "latitude"
Moments(e) == e.kernel \in {"moments", ""}
Kinds(e) == IF Moments(e) THEN <<"mean", "var", "count">> ELSE <<e.kernel>>
Suffix(kind) == CASE kind = "var" -> "_std_dev" [] kind = "count" -> "_num_points" [] OTHER -> ""
\* the results in order
Results(e) == [n \in 1..(Len(e.vars) * Len(Kinds(e))) |->
                 [var |-> e.vars[1 + ((n - 1) \div Len(Kinds(e)))], kind |-> Kinds(e)[1 + ((n - 1) % Len(Kinds(e)))]]]
OkVal(kind, w, o) == Match(w, o) \/ (kind = "count" /\ w = <<0, 1>> /\ o = MASKV)
\* each cell's two ends, in either order
Ends(b) == [j \in 1..(Len(b) \div 2) |-> {b[(2 * j) - 1], b[2 * j]}]
OneOut(e, D, r, o) ==
  LET want == Collapsed(r.kind, e.axes, D, Vals(r.var.v, r.var.m, 1), Weighted(e))
      l == Left(e.axes, D)
      kept == SelectSeq(e.aux, LAMBDA a : Kept(a, D))
      has(n) == \E k \in 1..Len(o.aux) : o.aux[k].name = n
      obs(n) == o.aux[CHOOSE k \in 1..Len(o.aux) : o.aux[k].name = n]
  IN UNION {
       Clause(o.name = r.var.name \o Suffix(r.kind), "name"),
       Clause(o.shape = LeftShape(e.axes, D), "shape"),
       Clause(Len(want) = Len(o.v) /\ \A k \in 1..Len(want) : OkVal(r.kind, want[k], o.v[k]),
              CASE r.kind = "mean" -> "mean" [] r.kind = "var" -> "standard deviation" [] r.kind = "count" -> "number" [] r.kind = "sum" -> "sum" [] r.kind = "min" -> "minimum" [] OTHER -> "maximum"),
       Clause([k \in 1..Len(o.axes) |-> <<o.axes[k].std, o.axes[k].pts>>] = [k \in 1..Len(l) |-> <<e.axes[l[k]].std, e.axes[l[k]].pts>>], "other axes"),
       Clause(\A k \in 1..Len(l) : (e.axes[l[k]].bnds # <<>> /\ k <= Len(o.axes)) => Ends(o.axes[k].bnds) = Ends(e.axes[l[k]].bnds), "bounds of other axes"),
       Clause(\A k \in 1..Len(kept) : has(kept[k].var) /\ obs(kept[k].var).dims = NewDims(kept[k], D) /\ MatchAll(AuxLeft(kept[k], e.axes, D), obs(kept[k].var).v), "coordinates over several axes")}
\* height above ground of hybrid levels
Aux(e, n) == e.aux[CHOOSE k \in 1..Len(e.aux) : e.aux[k].var = n]
Level(e) == AxisOf(e.axes, "model_level_number")
Hybrid(e, D, o) ==
  IF ~e.hybrid \/ Level(e) \in D \/ ~Kept(Aux(e, "surface_altitude"), D) THEN {}
  ELSE LET orog == Aux(e, "surface_altitude")
           ov == AuxLeft(orog, e.axes, D)  od == NewDims(orog, D)
           lv == Level(e) - Cardinality({d \in D : d < Level(e)})
           sh == LeftShape(e.axes, D)
           ds == SelectSeq([k \in 1..Len(sh) |-> k], LAMBDA k : k = lv \/ k \in ToSet(od))
           osh == [k \in 1..Len(od) |-> sh[od[k]]]
           hsh == [k \in 1..Len(ds) |-> sh[ds[k]]]
           val(c) == LET ix == Unflat(hsh, c)  at(d) == ix[PosOf(ds, d)] IN
                     RPlus(Int2R(Aux(e, "level_height").v[at(lv)]), RTimes(Int2R(Aux(e, "sigma").v[at(lv)]), ov[Flat(osh, [k \in 1..Len(od) |-> at(od[k])])]))
       IN UNION {Clause(o.height.dims = ds, "axes of the height"), IF o.height.dims # ds THEN {} ELSE Clause(MatchAll([c \in 1..Prod(hsh) |-> val(c)], o.height.v), "height")}
Verdict(e) ==
  LET o == e.out  D == Gone(e) IN
  IF o.outcome # "ok" THEN {"refused"}
  ELSE IF Len(o.res) # Len(Results(e)) THEN {"number of results"}
  ELSE UNION ({Clause(o.same, "input changed")} \cup {OneOut(e, D, Results(e)[k], o.res[k]) \cup Hybrid(e, D, o.res[k]) : k \in 1..Len(o.res)})
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

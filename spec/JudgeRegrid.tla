------------------------------ MODULE JudgeRegrid ---------------------------
(* Gridded onto gridded: the axes which the sample and the data share take    *)
(* the points of the sample, in its order, followed by the other axes of the  *)
(* data; axes only the sample has play no part.                               *)
EXTENDS Interp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Has(axes, s) == \E k \in 1..Len(axes) : axes[k].std = s
Shared(e) == SelectSeq(e.sample, LAMBDA a : Has(e.axes, a.std))
Others(e) == SelectSeq(e.axes, LAMBDA a : ~Has(e.sample, a.std))
OutAxes(e) == Shared(e) \o Others(e)
OutShape(e) == [k \in 1..Len(OutAxes(e)) |-> Len(OutAxes(e)[k].pts)]
\* the position along the axis called std of output index tuple ix
Pos(e, ix, std) == ix[AxisOf(OutAxes(e), std)]
BrAt(e, ix) == [k \in 1..Len(e.axes) |->
    LET a == e.axes[k]  j == Pos(e, ix, a.std) IN
    IF Has(e.sample, a.std)
    THEN Reduced(AxisBrackets(a, OutAxes(e)[AxisOf(OutAxes(e), a.std)].pts[j], 360 * e.q, Ex(e)), e.method)
    ELSE {[a |-> j, b |-> j, wa |-> 1, wb |-> 0, d |-> 1]}]
ValueOk(e, vals, ix, got) ==
    LET chs == Choose1(BrAt(e, ix)) IN
    IF chs = {} THEN got = MASKED ELSE \E ch \in chs : ChoiceOk(e, vals, ch, got)
\* masked by the missing values of the sample
Skip(e, ix) == /\ e.missing = 1 /\ e.sm # <<>> /\ Len(Shared(e)) = Len(e.sample)
               /\ e.sm[Flat([k \in 1..Len(e.sample) |-> Len(e.sample[k].pts)], SubSeq(ix, 1, Len(e.sample)))] = 1
Verdict(e) ==
  LET o == e.out
      shp == OutShape(e)
      ax == OutAxes(e)
      Good(r) == Len(r.axes) = Len(ax) /\ \A k \in 1..Len(ax) : r.axes[k].std = ax[k].std /\ r.axes[k].pts = ax[k].pts
  IN IF o.outcome # "ok" THEN {"outcome"}
     ELSE UNION {
       Clause(Len(o.res) = Len(e.vars), "variables"),
       Clause(\A w \in 1..Len(o.res) : Good(o.res[w]), "geometry"),
       Clause(\A w \in 1..Len(o.res) : Good(o.res[w]) =>
           \A k \in 1..Len(Shared(e)) : o.res[w].axes[k].bnds = Shared(e)[k].bnds, "bounds"),
       Clause(\A w \in 1..Len(o.res) : Good(o.res[w]) => \A p \in 1..Prod(shp) :
              LET ix == Unflat(shp, p) IN
              IF Skip(e, ix) THEN o.res[w].v[p] = MASKED
              ELSE ValueOk(e, WithMask(e.vars[w].v, e.vars[w].m), ix, o.res[w].v[p]), "values"),
       Clause(\A w \in 1..Len(o.res) : /\ o.res[w].name = IF e.out_name # "" THEN e.out_name ELSE e.vars[w].name
                                       /\ o.res[w].long = IF e.out_long # "" THEN e.out_long ELSE "long x"
                                       /\ o.res[w].units = IF e.out_units # "" THEN e.out_units ELSE "1", "names"),
       Clause(o.after = o.before, "input")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

------------------------------- MODULE JudgeAgg -----------------------------
(* Judges recorded aggregations of ungridded data: prop = "A01" the grid,     *)
(* "A02" the contents of the cells.                                           *)
EXTENDS AggGrid, Bin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* the axis of a coordinate, as reported (half units), as cells in half units
Cells(ax) == [c \in 1..(Len(ax.bnds) \div 2) |-> [lo |-> MinSet({ax.bnds[2*c-1], ax.bnds[2*c]}),
                                                 hi |-> MaxSet({ax.bnds[2*c-1], ax.bnds[2*c]})]]
GridFor(e, std) == {j \in 1..Len(e.grid) : e.grid[j].std = std}
Vals(c) == {c.v[k] : k \in 1..Len(c.v)}
GridVerdict(e, r) ==
  UNION {
    Clause(Len(r.axes) = Len(e.coords) /\ \A c \in 1..Len(e.coords) : r.axes[c].std = e.coords[c].std, "axes"),
    Clause(\A c \in 1..Len(e.coords) : \A a \in 1..Len(r.axes) : \A j \in GridFor(e, e.coords[c].std) :
             r.axes[a].std = e.coords[c].std =>
             LET g == e.grid[j]  V == Vals(e.coords[c]) IN
             AxisPoints(g, r.axes[a], DefLo(g, V), DefHi(g, V)), "midpoints"),
    Clause(\A c \in 1..Len(e.coords) : \A a \in 1..Len(r.axes) : \A j \in GridFor(e, e.coords[c].std) :
             r.axes[a].std = e.coords[c].std =>
             LET g == e.grid[j]  V == Vals(e.coords[c]) IN
             AxisBounds(g, r.axes[a], DefLo(g, V), DefHi(g, V), e.q), "bounds"),
    Clause(\A c \in 1..Len(e.coords) : \A a \in 1..Len(r.axes) :
             (r.axes[a].std = e.coords[c].std /\ GridFor(e, e.coords[c].std) = {}) =>
             LET V == Vals(e.coords[c]) IN
             r.axes[a].pts = <<MinSet(V) + MaxSet(V)>> /\ r.axes[a].bnds = <<2 * MinSet(V), 2 * MaxSet(V)>>, "collapsed")}
AxesOf(e, r) == [a \in 1..Len(r.axes) |->
    [std |-> r.axes[a].std, cells |-> IF GridFor(e, r.axes[a].std) = {} THEN <<>> ELSE Cells(r.axes[a])]]
\* a result which would take the name of one of its coordinates gets a prefix
OutName(e, name) == IF \E c \in 1..Len(e.coords) : e.coords[c].std = name THEN "aggregated_" \o name ELSE name
NOut(kernel) == IF kernel = "moments" THEN 3 ELSE 1
CellVerdict(e, rs) ==
  LET n == NOut(e.kernel)
      Turn == 720 * e.q
      N == Len(e.coords[1].v)
  IN UNION {
    Clause(Len(rs) = n * Len(e.vars), "variables"),
    Clause(\A w \in 1..Len(e.vars) : n * w <= Len(rs) =>
        LET r == rs[n * (w - 1) + 1]
            axes == AxesOf(e, r)
            sh == Shape(axes)
            pts == [k \in 1..N |-> [a \in 1..Len(axes) |-> 2 * ByStd(e.coords, axes[a].std).v[k]]]
            vals == WithMask(e.vars[w].v, e.vars[w].m)
        IN \A p \in 1..Prod(sh) :
             CellOk(e.kernel, axes, Unflat(sh, p), pts, vals, [k \in 1..n |-> rs[n * (w - 1) + k].v[p]], Turn), "cells"),
    Clause(\A w \in 1..Len(rs) : Len(rs[w].v) = Prod(Shape(AxesOf(e, rs[w]))), "size"),
    Clause(\A w \in 1..Len(e.vars) : n * w <= Len(rs) => \A k \in 1..n :
        rs[n * (w - 1) + k].name = OutName(e, e.vars[w].name \o (IF k = 1 THEN "" ELSE IF k = 2 THEN "_std_dev" ELSE "_num_points")), "names")}
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE (IF e.prop = "A01" THEN UNION {GridVerdict(e, o.res[w]) : w \in 1..Len(o.res)} ELSE CellVerdict(e, o.res))
       \cup Clause(o.after = o.before, "input")
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

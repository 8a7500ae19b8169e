------------------------------- MODULE JudgeBin -----------------------------
(* Judges recorded bin collocations of ungridded data onto a grid.  Sample    *)
(* axes: [std, pts, bnds] in units of 1/q; everything is doubled here so that *)
(* bounds midway between points are integers.                                 *)
EXTENDS Bin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Clip(std, x, q) == IF std = "latitude" THEN MaxSet({-180 * q, MinSet({180 * q, x})}) ELSE x
\* bounds midway between neighbouring points, the end cells symmetric about their point
Edge(p, k) == IF k = 0 THEN 3 * p[1] - p[2] ELSE IF k = Len(p) THEN 3 * p[k] - p[k - 1] ELSE p[k] + p[k + 1]
Guessed(ax, q) == [k \in 1..Len(ax.pts) |->
     LET a == Clip(ax.std, Edge(ax.pts, k - 1), q)  b == Clip(ax.std, Edge(ax.pts, k), q)
     IN [lo |-> MinSet({a, b}), hi |-> MaxSet({a, b})]]
CellsOf(ax, q) == IF ax.bnds = <<>> THEN Guessed(ax, q)
                  ELSE [k \in 1..Len(ax.pts) |-> [lo |-> 2 * MinSet({ax.bnds[2*k-1], ax.bnds[2*k]}),
                                                 hi |-> 2 * MaxSet({ax.bnds[2*k-1], ax.bnds[2*k]})]]
Shared(e) == Where(Len(e.axes), LAMBDA a : HasStd(e.coords, e.axes[a].std))
Suffix(k) == IF k = 1 THEN "" ELSE IF k = 2 THEN "_std_dev" ELSE "_num_points"
Verdict(e) ==
  LET o == e.out
      sh == Shared(e)
      all == Len(sh) = Len(e.axes)
      axes == [a \in 1..Len(sh) |-> [std |-> e.axes[sh[a]].std, cells |-> CellsOf(e.axes[sh[a]], e.q)]]
      shape == Shape(axes)
      n == IF e.kernel \in {"moments", "own"} THEN 3 ELSE 1
      N == Len(e.coords[1].v)
      Turn == 720 * e.q
      pts == [k \in 1..N |-> [a \in 1..Len(axes) |-> 2 * ByStd(e.coords, axes[a].std).v[k]]]
      smask(p) == e.missing = 1 /\ e.sm # <<>> /\ e.sm[p] = 1
      At1(std, p) == LET a == CHOOSE x \in 1..Len(sh) : e.axes[sh[x]].std = std IN e.axes[sh[a]].pts[Unflat(shape, p)[a]]
      Centre(p) == At1("latitude", p) + At1("longitude", p)
  IN IF e.missing = 1 /\ ~all THEN Clause(o.outcome = "error" /\ o.exc = "UserPrintableException", "refused")
     ELSE IF o.outcome # "ok" THEN {"outcome"}
     ELSE UNION {
       Clause(Len(o.res) = n * Len(e.vars), "variables"),
       Clause(\A w \in 1..Len(o.res) :
          /\ Len(o.res[w].axes) = Len(sh)
          /\ \A a \in 1..Len(sh) : /\ o.res[w].axes[a].std = e.axes[sh[a]].std
                                   /\ o.res[w].axes[a].pts = [k \in 1..Len(e.axes[sh[a]].pts) |-> 2 * e.axes[sh[a]].pts[k]], "axes"),
       Clause(\A w \in 1..Len(e.vars) : n * w <= Len(o.res) =>
          LET vals == WithMask(e.vars[w].v, e.vars[w].m) IN
          \A p \in 1..Prod(shape) :
             LET got == [k \in 1..n |-> o.res[n * (w - 1) + k].v[p]] IN
             IF smask(p) THEN \A k \in 1..n : got[k] = MASKED
             ELSE CellOk(e.kernel, axes, Unflat(shape, p), pts, vals, got, Turn), "cells"),
       \* the kernel is told which cell it is
       Clause(e.kernel = "own" => \A w \in 1..Len(o.res) : w % 3 = 0 => \A p \in 1..Prod(shape) : o.res[w].v[p] \in {MASKED, 100 * Centre(p)}, "told where the cell is"),
       Clause(\A w \in 1..Len(o.res) : Len(o.res[w].v) = Prod(shape), "size"),
       Clause(\A w \in 1..Len(o.res) : o.res[w].name = e.vars[((w - 1) \div n) + 1].name \o Suffix(((w - 1) % n) + 1), "names"),
       Clause(o.after = o.before, "input")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

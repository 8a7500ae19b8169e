----------------------------- MODULE JudgeSubsetG ---------------------------
(* Judges recorded gridded subset calls.                                      *)
EXTENDS SubsetGrid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* auxiliary coordinate spanning some of the axes
AuxOk(e, a, g, gaxes, Turn) ==
    LET ax == [k \in 1..Len(a.dims) |-> e.axes[AxisOf(e.axes, a.dims[k])]]
        gx == [k \in 1..Len(a.dims) |-> gaxes[AxisOf(e.axes, a.dims[k])]]
    IN ValuesOk(ax, a.v, gx, g.v, Turn)
Verdict(e) ==
  LET o == e.out
      Turn == 360 * e.q
      A == 1..Len(e.axes)
      must == \A a \in A : Must(e.axes[a], e.lims, Turn) # {}
      may == \A a \in A : May(e.axes[a], e.lims, Turn) # {}
  IN  IF o.outcome = "ok" THEN
        UNION {
          Clause(may, "empty"),
          Clause(Len(o.vars) = Len(e.vars), "variables"),
          UNION {LET r == o.vars[j]
                     good == r.order = 1 /\ \A a \in A : AxisOk(e.axes[a], r.axes[a], e.lims, Turn) IN
             UNION {Clause(r.order = 1, "dimensions"), Clause(good, "axes"),
                    Clause(good => \A a \in A : BoundsOk(e.axes[a], r.axes[a], Turn), "bounds"),
                    Clause(good => ValuesOk(e.axes, WithMask(e.vars[j].v, e.vars[j].m), r.axes, r.v, Turn), "values"),
                    Clause(good => \A x \in 1..Len(e.aux) : AuxOk(e, e.aux[x], r.aux[x], r.axes, Turn), "aux")}
             : j \in 1..Len(o.vars)},
          Clause(o.after = o.before, "input")}
      ELSE IF o.outcome = "none" THEN Clause(~must, "none") \cup Clause(o.after = o.before, "input")
      ELSE {"outcome"}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

---------------------------- MODULE JudgeLonRange ---------------------------
(* Judges recorded histories of set_longitude_range calls: out.obs[k] is the  *)
(* state observed after the k-th call.                                        *)
EXTENDS LonRange, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
AuxVals(e, a, v, gaxes, got, Turn) ==
    LET ax == [k \in 1..Len(a.dims) |-> e.axes[AxisOf(e.axes, a.dims[k])]]
        gx == [k \in 1..Len(a.dims) |-> gaxes[AxisOf(e.axes, a.dims[k])]]
    IN ValuesOk(ax, v, gx, got, Turn)
Odd(s) == [k \in 1..(Len(s) \div 2) |-> s[2*k-1]]
Even(s) == [k \in 1..(Len(s) \div 2) |-> s[2*k]]
ObsG(e, r, s) ==
  LET Turn == 360 * e.q
      good == r.order = 1 /\ AxesOk(e.axes, r.axes, s, Turn) IN
  UNION {Clause(r.order = 1, "dimensions"), Clause(good, "axes"),
         Clause(good => \A a \in 1..Len(e.axes) : BoundsOk(e.axes[a], r.axes[a], Turn), "bounds"),
         Clause(good => ValuesOk(e.axes, WithMask(e.vars[1].v, e.vars[1].m), r.axes, r.v, Turn), "values"),
         Clause(good => \A x \in 1..Len(e.aux) : AuxVals(e, e.aux[x], e.aux[x].v, r.axes, r.aux[x].v, Turn), "aux"),
         Clause(good => \A x \in 1..Len(e.aux) :
                   IF e.aux[x].b = <<>> THEN r.aux[x].b = <<>>
                   ELSE /\ Len(r.aux[x].b) = 2 * Len(r.aux[x].v)
                        /\ AuxVals(e, e.aux[x], Odd(e.aux[x].b), r.axes, Odd(r.aux[x].b), Turn)
                        /\ AuxVals(e, e.aux[x], Even(e.aux[x].b), r.axes, Even(r.aux[x].b), Turn), "auxbounds")}
ObsU(e, r, s) ==
  LET Turn == 360 * e.q IN
  UNION {Clause(r.v = WithMask(e.vars[1].v, e.vars[1].m), "values"),
         UNION {LET c == e.coords[k]  g == ByStd(r.coords, c.std).v IN
            Clause(/\ Len(g) = Len(c.v)
                   /\ \A j \in 1..Len(g) : IF c.std = "longitude"
                         THEN InRange(g[j], s, Turn) /\ (g[j] - c.v[j]) % Turn = 0
                         ELSE g[j] = c.v[j], "coordinates") : k \in 1..Len(e.coords)}}
Verdict(e) ==
  IF e.out.outcome # "ok" THEN {"outcome"}
  ELSE IF Len(e.out.obs) # Len(e.starts) THEN {"observations"}
  ELSE UNION {IF e.kind = "g" THEN ObsG(e, e.out.obs[k], e.starts[k]) ELSE ObsU(e, e.out.obs[k], e.starts[k]) : k \in 1..Len(e.starts)}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

------------------------------ MODULE JudgeShape ----------------------------
(* Judges recorded shape subset calls, gridded (kind = "g") and ungridded.    *)
EXTENDS Shape, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* ---- gridded
OutAt(axes, gx, poly, src, Turn) ==
    LET shape == [a \in 1..Len(axes) |-> Len(axes[a].pts)]
        gshape == [a \in 1..Len(axes) |-> Len(gx[a].pts)]
        ix == [a \in 1..Len(axes) |-> IndexSeq(axes[a], gx[a].pts, Turn)]
        X == AxisOf(axes, "longitude")  Y == AxisOf(axes, "latitude")
    IN  [p \in 1..Prod(gshape) |-> LET u == Unflat(gshape, p) IN
            IF InsideMod(poly, gx[X].pts[u[X]], gx[Y].pts[u[Y]], Turn)
            THEN src[Flat(shape, [a \in 1..Len(axes) |-> ix[a][u[a]]])] ELSE MASKED]
VerdictG(e) ==
  LET o == e.out
      Turn == 360 * e.q
      lims == BoxLims(e.poly) \o e.lims
      A == 1..Len(e.axes)
      must == \A a \in A : Must(e.axes[a], lims, Turn) # {}
      may == \A a \in A : May(e.axes[a], lims, Turn) # {}
  IN  IF o.outcome = "ok" THEN
        UNION {
          Clause(may, "empty"),
          Clause(Len(o.vars) = Len(e.vars), "variables"),
          UNION {LET r == o.vars[j]
                     good == r.order = 1 /\ \A a \in A : AxisOk(e.axes[a], r.axes[a], lims, Turn) IN
             UNION {Clause(r.order = 1, "dimensions"), Clause(good, "axes"),
                    Clause(good => \A a \in A : BoundsOk(e.axes[a], r.axes[a], Turn), "bounds"),
                    Clause(good => r.v = OutAt(e.axes, r.axes, e.poly, WithMask(e.vars[j].v, e.vars[j].m), Turn), "values")}
             : j \in 1..Len(o.vars)},
          Clause(o.after = o.before, "input")}
      ELSE IF o.outcome = "none" THEN Clause(~must, "none") \cup Clause(o.after = o.before, "input")
      ELSE {"outcome"}
\* ---- ungridded
VerdictU(e) ==
  LET o == e.out
      Turn == 360 * e.q
      n == Len(e.vars[1].v)
      lon == ByStd(e.coords, "longitude").v
      lat == ByStd(e.coords, "latitude").v
      sel == Where(n, LAMBDA k : InsideMod(e.poly, lon[k], lat[k], Turn)
                                 /\ \A j \in 1..Len(e.lims) : PointIn(e.coords, e.lims[j], k, Turn))
  IN  IF o.outcome = "ok" THEN
        UNION {
          Clause(sel # <<>>, "empty"),
          Clause(Len(o.vars) = Len(e.vars), "variables"),
          UNION {LET r == o.vars[j] IN
             UNION {Clause(r.v = Pick(WithMask(e.vars[j].v, e.vars[j].m), sel), "values"),
                    Clause(\A c \in 1..Len(e.coords) : LET got == ByStd(r.coords, e.coords[c].std).v IN
                        /\ Len(got) = Len(sel)
                        /\ \A k \in 1..Len(sel) :
                             IF e.coords[c].std = "longitude"
                             THEN got[k] \in LonReps(lon[sel[k]], MinX(e.poly), MaxX(e.poly), Turn)
                             ELSE got[k] = e.coords[c].v[sel[k]], "coordinates")}
             : j \in 1..Len(o.vars)},
          Clause(o.after = o.before, "input")}
      ELSE IF o.outcome = "none" THEN Clause(sel = <<>>, "none") \cup Clause(o.after = o.before, "input")
      ELSE {"outcome"}
Verdict(e) == IF e.kind = "g" THEN VerdictG(e) ELSE VerdictU(e)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

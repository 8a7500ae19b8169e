----------------------------- MODULE JudgeSubsetU ---------------------------
(* Judges recorded ungridded subset calls.                                    *)
EXTENDS Subset, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Verdict(e) ==
  LET o == e.out
      n == Len(e.coords[1].v)
      Turn == 360 * e.q
      sel == Selected(e.coords, e.lims, n, Turn)
  IN  IF o.outcome = "ok" THEN
        UNION {
          Clause(sel # <<>>, "empty"),
          Clause(Len(o.vars) = Len(e.vars), "variables"),
          Clause(\A j \in 1..Len(o.vars) : o.vars[j].v = Pick(WithMask(e.vars[j].v, e.vars[j].m), sel), "values"),
          Clause(\A j \in 1..Len(o.vars) : \A c \in 1..Len(e.coords) :
                   HasStd(o.vars[j].coords, e.coords[c].std) /\
                   LET g == ByStd(o.vars[j].coords, e.coords[c].std).v IN
                   Len(g) = Len(sel) /\ \A k \in 1..Len(sel) :
                      CoordReported(e.coords, e.lims, e.coords[c].std, sel[k], g[k], Turn), "coordinates"),
          Clause(o.after = o.before, "input")}
      ELSE IF o.outcome = "none" THEN Clause(sel = <<>>, "none") \cup Clause(o.after = o.before, "input")
      ELSE {"outcome"}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

--------------------------- MODULE JudgeGridFile ----------------------------
(* Recorded saves of grids and readings of the files.                         *)
EXTENDS GridFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Content(d) == [k \in 1..Len(d.v) |-> IF d.m # <<>> /\ d.m[k] = 1 THEN MASKED ELSE d.v[k]]
Verdict(e) ==
  LET o == e.out
      J == 1..Len(e.vars)
      s(j) == Reread(e.axes, Content(e.vars[j]), e.split.d, e.split.cuts) IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {
    Clause(o.before = o.after, "saving changed the data"),
    IF Len(o.read) # Len(e.vars) THEN {"number of variables"} ELSE UNION {
     Clause(\A j \in J : Len(o.read[j].axes) = Len(e.axes) /\ \A k \in 1..Len(e.axes) : LET a == s(j).axes[k]  b == o.read[j].axes[k] IN
              b.std = a.std /\ b.pts = a.pts, "axes"),
     Clause(\A j \in J : Len(o.read[j].axes) # Len(e.axes) \/ \A k \in 1..Len(e.axes) : o.read[j].axes[k].bnds = s(j).axes[k].bnds, "bounds"),
     Clause(\A j \in J : o.read[j].v = s(j).v, "values"),
     Clause(\A j \in J : Len(o.read[j].aux) = Len(AuxOf(e)) /\ ToSet(o.read[j].aux) = ToSet(AuxOf(e)), "other coordinates"),
     Clause(\A j \in J : o.read[j].name = e.vars[j].name, "name"),
     Clause(\A j \in J : o.read[j].units = e.vars[j].units, "units"),
     Clause(\A j \in J : o.read[j].long = e.vars[j].long \/ e.vars[j].std # "", "long name"),
     Clause(\A j \in J : o.read[j].std = e.vars[j].std, "standard name"),
     Clause(\A j \in J : o.read[j].history = (IF "hadgem" \in DOMAIN e /\ e.hadgem = 1 /\ e.split.cuts # <<>> THEN "" ELSE e.vars[j].history), "history"),
     Clause(\A j \in J : o.read[j].dt = e.vars[j].dtype, "type"),
     Clause(\A j \in J : o.read[j].tunits, "time units"),
     Clause(\A j \in J : o.read[j].kind, "gridded")},
    Clause(o.again = o.read, "saved and read once more")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

----------------------------- MODULE JudgeStore -----------------------------
(* Recorded saves of ungridded data and readings of the files.                *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Verdict(e) ==
  LET o == e.out
      names == Names(CoordFile(e), VarList(e))
      \* the first variable which has this name is the one whose description is kept
      first(j) == names[j] \notin {e.coords[c].std : c \in 1..Len(e.coords)} /\ \A h \in 1..(j - 1) : names[h] # names[j]
      J == {j \in 1..Len(e.vars) : first(j)} IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {
    Clause(o.before = o.after, "saving changed the data"),
    Clause(ToSet(o.names) = ToSet(FileNames(e)) /\ Len(o.names) = Len(FileNames(e)), "variables in the file"),
    Clause(o.product = "cis", "product"),
    IF Len(o.read) # Len(e.vars) THEN {"number of variables"} ELSE UNION {
     Clause(\A j \in 1..Len(e.vars) : Len(o.read[j].v) = Len(VarIn(e, e.vars[j])), "number of points"),
     Clause(\A j \in 1..Len(e.vars) : LET s == VarIn(e, e.vars[j])  r == o.read[j].v IN
              Len(r) # Len(s) \/ \A k \in 1..Len(s) : (s[k] = MASKED) = (r[k] = MASKED), "missing"),
     Clause(\A j \in 1..Len(e.vars) : LET s == VarIn(e, e.vars[j])  r == o.read[j].v IN
              Len(r) # Len(s) \/ \A k \in 1..Len(s) : s[k] = MASKED \/ r[k] = MASKED \/ s[k] = r[k], "values"),
     Clause(\A j \in J : o.read[j].dt = TypeIn(e.vars[j].dt), "type"),
     Clause(\A j \in J : o.read[j].name = names[j], "name"),
     Clause(\A j \in J : o.read[j].units = o.meta[j].units /\ (e.vars[j].units = "" \/ o.read[j].units = e.vars[j].units), "units"),
     Clause(\A j \in J : o.read[j].long = e.vars[j].long, "long name"),
     Clause(\A j \in J : o.read[j].std = e.vars[j].std, "standard name"),
     Clause(\A j \in J : o.read[j].history = e.vars[j].history, "history"),
     Clause(\A j \in J : e.vars[j].note = "" \/ o.read[j].note = e.vars[j].note, "attributes"),
     Clause(\A j \in 1..Len(e.vars) : LET r == o.read[j].coords IN
              /\ {r[c].std : c \in 1..Len(r)} = {e.coords[c].std : c \in 1..Len(e.coords)} /\ Len(r) = Len(e.coords)
              /\ \A c \in 1..Len(e.coords) : \E h \in 1..Len(r) : r[h].std = e.coords[c].std /\ r[h].v = CoordIn(e, e.coords[c]) /\ r[h].units = o.cunits[c], "coordinates")},
    Clause(o.again = o.read, "saved and read once more")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

---------------------------- MODULE JudgeStation ----------------------------
(* Recorded readings of stations, flights, retrievals and maps.               *)
EXTENDS Station, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Vals(s) == [k \in 1..Len(s) |-> s[k].v]
Pos(s) == [k \in 1..Len(s) |-> <<s[k].lat, s[k].lon>>]
Tall(s) == [k \in 1..Len(s) |-> <<s[k].z, s[k].p, s[k].b>>]
Times(s) == [k \in 1..Len(s) |-> s[k].t]
Same(name, want, got) ==
  UNION {Clause(Len(got) = Len(want), name \o ": number of points"), Clause(Vals(got) = Vals(want), name \o ": values"),
         Clause(Pos(got) = Pos(want), name \o ": positions"), Clause(Times(got) = Times(want), name \o ": times"),
         Clause(Tall(got) = Tall(want), name \o ": heights, pressures and bins")}
Rows(e, o) ==
  UNION {Same("points", Points(e), o.pts), Same("subset", Within(Points(e), e.cut[1], e.cut[2]), o.sub),
         IF e.alone THEN Same("coordinates alone", Places(e), o.alone) ELSE {},
         Clause(o.units = e.units, "units"),
         Clause(ToSet(e.listed) \subseteq ToSet(o.listed), "a variable is not listed"),
         Clause(ToSet(o.listed) \cap ToSet(e.unlisted) = {}, "something else is listed as a variable")}
Maps(e, o) ==
  LET want == Sheets(e) IN
  IF Len(o.sheets) # Len(want) THEN {"number of maps"}
  ELSE UNION {Clause([k \in 1..Len(want) |-> o.sheets[k].t] = [k \in 1..Len(want) |-> want[k].t], "times of maps"),
              Clause([k \in 1..Len(want) |-> <<o.sheets[k].lo, o.sheets[k].hi>>] = [k \in 1..Len(want) |-> <<want[k].lo, want[k].hi>>], "periods of maps"),
              Clause([k \in 1..Len(want) |-> o.sheets[k].v] = [k \in 1..Len(want) |-> want[k].v], "values of maps"),
              Clause(o.lat = e.lat /\ o.lon = e.lon, "grid of maps")}
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN (IF e.kind \in Text \cup Aircraft \cup Retrieval /\ Points(e) = <<>> /\ o.outcome = "error" THEN {} ELSE {"outcome"})
  ELSE IF e.kind \in {"l3aerosol", "l3cloud"} THEN Maps(e, o) ELSE Rows(e, o)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

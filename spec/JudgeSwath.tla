----------------------------- MODULE JudgeSwath -----------------------------
(* Recorded readings of satellite products.                                   *)
EXTENDS Swath, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Vals(s) == [k \in 1..Len(s) |-> s[k].v]
Pos(s) == [k \in 1..Len(s) |-> [lat |-> s[k].lat, lon |-> s[k].lon, t |-> s[k].t]]
Vert(s) == [k \in 1..Len(s) |-> [z |-> s[k].z, p |-> s[k].p]]
Same(name, want, got) ==
  UNION {Clause(Len(got) = Len(want), name \o ": number of points"), Clause(Vals(got) = Vals(want), name \o ": values"),
         Clause(Pos(got) = Pos(want), name \o ": positions"), Clause(Vert(got) = Vert(want), name \o ": heights and pressures")}
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE IF Len(o.sets) # Datasets(e) THEN {"number of datasets"}
  ELSE UNION {UNION {LET want == Points(e, d) IN UNION {Same("points", want, o.sets[d].pts), Same("subset", Within(want, e.cut[1], e.cut[2]), o.sets[d].sub)} : d \in 1..Datasets(e)},
              UNION {Same("coordinates alone", [k \in 1..Len(Points(e, 1)) |-> [Points(e, 1)[k] EXCEPT !.v = 0]], o.alone) : x \in IF o.alone = <<>> THEN {} ELSE {1}},
              Clause(\A d \in 1..Len(o.size) : o.size[d] \in {Len(Points(e, d)), SumSeq([k \in 1..Len(e.files) |-> Elements(e, e.files[k])])}, "size before reading"),
              Clause(\A d \in 1..Len(o.after) : o.after[d] = Len(Points(e, d)), "size after reading"),
              Clause(o.sets[1].spans = Spans(e), "periods"),
              Clause(ToSet(e.listed) \subseteq ToSet(o.listed), "a variable is not listed"),
              Clause(ToSet(o.listed) \cap ToSet(e.unlisted) = {}, "something else is listed as a variable")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

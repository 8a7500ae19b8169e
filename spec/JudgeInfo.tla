------------------------------ MODULE JudgeInfo -----------------------------
(* Recorded listings and summaries.                                           *)
EXTENDS Info, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
OfTree(e) ==
  LET o == e.out  want == Listed(e.files, e.valid) IN
  UNION {Clause(ToSet(o.got) = want, "which variables"), Clause(Len(o.got) = Cardinality(ToSet(o.got)), "a variable twice"),
         Clause(ToSet(o.printed) = want /\ Len(o.printed) = Cardinality(want), "which variables are printed"),
         Clause({o.reads[k].path : k \in 1..Len(o.reads)} = (IF e.valid.any THEN {x \in want : \A k \in 1..Len(e.files) : Holds(e.files[k], x) /\ In(e.files[k], x).dims = <<"pixel_number">>} ELSE {}),
                "a listed variable cannot be read"),
         Clause(\A k \in 1..Len(o.reads) : o.reads[k].values = Joined(e.files, o.reads[k].path), "values of a listed variable")}
OfGrid(e) == LET o == e.out  want == GridListed(e.files) IN
  UNION {Clause(ToSet(o.got) = want, "which variables"), Clause(ToSet(o.printed) = want /\ Len(o.printed) = Cardinality(want), "which variables are printed")}
OfHdf(e) == LET o == e.out IN Clause(ToSet(o.got) = ToSet(IF e.type = "SD" THEN e.arrays ELSE e.tables), "which variables")
            \cup Clause(ToSet(o.printed) = ToSet(o.got), "which variables are printed")
\* all files one after the other
All(parts) == FlattenSeq(parts)
OfSummary(e) ==
  LET o == e.out
      One(k) ==
        LET r == o.reports[k]  v == e.vars[e.asked[k]]  vs == All([f \in 1..Len(e.parts) |-> e.parts[f].values[e.asked[k]]]) IN
        UNION {Clause(r.name = v.name, "name"), Clause(r.units = v.units, "units"), Clause(r.shape = <<Len(vs)>>, "shape"), Clause(r.points = Len(vs), "number of points"),
               Clause(r.present = Len(Present(vs)), "number of values"),
               Clause([j \in 1..Len(r.coords) |-> r.coords[j].name] = [j \in 1..Len(e.coords) |-> e.coords[j]], "names of coordinates"),
               UNION {LET c == Span(All([f \in 1..Len(e.parts) |-> e.parts[f].coords[j]])) IN
                      IF e.coords[j] = "time" THEN Clause(r.coords[j].range = <<EighthDate(c[1]), EighthDate(c[2])>>, "range of the times")
                      ELSE Clause(r.coords[j].range = <<<<c[1]>>, <<c[2]>>>>, "range of a coordinate") : j \in 1..Len(r.coords)}}
  IN IF o.outcome # "ok" \/ Len(o.reports) # Len(e.asked) THEN {"a summary for each variable"} ELSE UNION {One(k) : k \in 1..Len(e.asked)}
Verdict(e) == CASE e.kind = "tree" -> OfTree(e) [] e.kind = "grid" -> OfGrid(e) [] e.kind = "hdf" -> OfHdf(e) [] OTHER -> OfSummary(e)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

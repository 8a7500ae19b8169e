----------------------------- MODULE JudgeArith -----------------------------
(* Recorded programs of dataset arithmetic: after every step, every dataset.  *)
EXTENDS Arith, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Init0(e) == [k \in 1..Len(e.sets) |-> [v |-> Vals(e.sets[k].v, e.sets[k].m, e.sets[k].q), name |-> e.sets[k].name,
                                        units |-> e.sets[k].units, cs |-> e.sets[k].cs,
                                        shape |-> e.sets[k].shape, hist |-> 0]]
View(d, x) == UNION {Clause(MatchAll(d.v, x.v), "values"), Clause(x.flat = x.v, "flattened values"), Clause(x.cs = d.cs, "coordinates"),
                     Clause(x.units = d.units, "units"), Clause(x.name = d.name, "name"),
                     Clause(x.shape = d.shape, "shape"), Clause(x.hist = d.hist, "history")}
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE Clause(Len(o.obs) = Len(e.ops) + 1, "steps") \cup
       UNION {LET h == Run(Init0(e), SubSeq(e.ops, 1, t - 1)) IN
              IF Len(o.obs[t].h) # Len(h) THEN {"datasets"}
              ELSE UNION ({View(h[k], o.obs[t].h[k]) : k \in 1..Len(h)} \cup
                   {IF t = 1 THEN {} ELSE
                    LET p == e.ops[t - 1]  g == Run(Init0(e), SubSeq(e.ops, 1, t - 2)) IN
                    Clause(p.op \notin Ops \/ o.obs[t].refused = Refusal(g, p), "refusal")}) : t \in 1..Len(o.obs)}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

------------------------------ MODULE JudgeExpr -----------------------------
(* Recorded evaluations of expressions over gridded and ungridded variables.  *)
EXTENDS Expr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* the expressions which must be refused
Vs(e) == [k \in 1..Len(e.vars) |-> Vals(e.vars[k].v, e.vars[k].m, e.vars[k].q)]
Shape(e) == IF e.kind = "g" THEN e.shape ELSE <<Len(e.vars[1].v)>>
Refused(e) == IF e.expr.k = "raw" THEN TRUE
              ELSE LET x == Value(e.expr, Vs(e), Shape(e)) IN ~x.ok \/ x.s # Shape(e)
Verdict(e) ==
  LET o == e.out IN
  IF Refused(e) THEN Clause(o.outcome = "error" /\ (e.expr.k = "raw" => o.exc = "EvaluationError"), "refusal")
                       \cup Clause(o.outcome # "error" \/ o.before = o.after, "inputs changed")
  ELSE IF o.outcome # "ok" THEN {"outcome"}
  ELSE LET x == Value(e.expr, Vs(e), Shape(e)) IN
       UNION {Clause(MatchAll(x.v, o.v), "values"),
              Clause(o.shape = Shape(e), "shape"),
              Clause(o.cs = o.before[1].cs, "coordinates"),
              Clause(o.name = (IF e.name = "" THEN "calculated_variable" ELSE e.name), "name"),
              Clause(o.units = (IF e.units = "" THEN "unknown" ELSE e.units), "units"),
              Clause(o.attrs = e.attrs, "attributes"),
              Clause(o.hist = 1, "history"),
              Clause(o.before = o.after, "inputs changed")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

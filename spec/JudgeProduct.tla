---------------------------- MODULE JudgeProduct ---------------------------
(* Recorded choices of product.                                               *)
EXTENDS ProductTable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Here(e) == Registered(Builtin, IF e.home = "set" THEN ToSet(e.plugins) ELSE {})
KernelThere(e, name) == e.home = "set" /\ name \in ToSet(e.kernels)
OfQuery(e, P, q, o) ==
  LET want == Opens(P, q) IN
  IF o.outcome = "error" THEN {"failed"}
  ELSE UNION {Clause(want # NOBODY \/ o.outcome = "refused", "opened although nobody accepts"), Clause(want = NOBODY \/ o.outcome = "ok", "refused although accepted"),
              IF want = NOBODY \/ o.outcome # "ok" THEN {}
              ELSE UNION {Clause(o.got = want, "which product"), Clause(\A k \in 1..Len(o.uses) : o.uses[k] = want, "read with another product"),
                          Clause(o.fails = <<>> \/ o.fails = <<"product", "product", "product", "product", "format">>, "report of a product which fails")},
              IF q.product = <<>> \/ o.parse = "" THEN {} ELSE Clause((o.parse = "yes") = (Named(P, q.product) # {}), "product on the command line")}
OfKernel(e, name, ans) == Clause(ans = (IF KernelThere(e, name) THEN "yes" ELSE "no"), "kernels of plugins")
Verdict(e) == LET P == Here(e) IN
  UNION ({OfQuery(e, P, e.queries[k], e.out.q[k]) : k \in 1..Len(e.queries)} \cup {OfKernel(e, e.asks[k], e.out.k[k]) : k \in 1..Len(e.asks)})
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

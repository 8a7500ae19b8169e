---------------------------- MODULE JudgeColloc -----------------------------
(* Executions of the four collocators. e.out.ref holds what each variable on  *)
(* its own, without any option, collocates to: the values themselves are the  *)
(* business of the collocators' own specifications (Box, Bin, Interp).        *)
EXTENDS Colloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
UnitOk(u, got) == got = u \/ (u = "" /\ got \in {"1", "unknown", "no_unit"})
Verdict(e) ==
  LET o == e.out
      n == Len(e.data)
      want == [k \in 1..n |-> Outputs(e, e.data[k])]
      all == Cat(want)
      src == Cat([k \in 1..n |-> [j \in 1..Len(want[k]) |-> k]])
      sub == Cat([k \in 1..n |-> [j \in 1..Len(want[k]) |-> j]])
      refusable == e.skind = "g" /\ e.dkind = "u" /\ e.missing # 0 /\ \E k \in 1..n : ~CanMask(e, e.data[k])
  IN IF e.how \notin Accepts(e) \/ e.kern = "nokernel"
     THEN Clause(o.outcome = "error" /\ o.exc \in {"ValueError", "ClassNotFoundError"}, "refusal")
     ELSE IF refusable /\ o.outcome = "error" THEN Clause(o.exc = "UserPrintableException", "refusal")
     ELSE IF o.outcome # "ok" THEN {"outcome"}
     ELSE IF Len(o.res) # Len(all) THEN {"variables"}
     ELSE UNION {
       Clause(\A w \in 1..Len(all) : o.res[w].name = all[w][1] /\ o.res[w].long = all[w][2] /\ UnitOk(all[w][3], o.res[w].units), "names"),
       Clause(\A w \in 1..Len(all) : o.res[w].std = IF sub[w] = 1 THEN e.data[src[w]].stdname ELSE "", "standard name"),
       Clause(\A w \in 1..Len(all) : o.res[w].coords =
              IF e.skind = "g" THEN [k \in 1..Len(OutAxes(e, e.data[src[w]])) |->
                                        [std |-> OutAxes(e, e.data[src[w]])[k].std, v |-> OutAxes(e, e.data[src[w]])[k].v]]
              ELSE o.scoords, "coordinates"),
       Clause(\A w \in 1..Len(all) : o.res[w].v = Masked(e, e.data[src[w]], o.ref[src[w]][sub[w]]), "values"),
       Clause(\A w \in 1..Len(all) : \A p \in 1..Len(o.res[w].v) :
              o.res[w].v[p] = MASKED => IF e.fill = ABSENT THEN (e.dkind = "g" /\ e.skind = "g") \/ o.res[w].filled[p] = NANV
                                                          ELSE o.res[w].filled[p] = e.fill, "fill value"),
       Clause(\A w \in 1..Len(all) : o.res[w].hist = 1, "history"),
       Clause(o.after = o.before, "input")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

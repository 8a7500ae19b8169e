---------------------------- MODULE JudgePipeline ----------------------------
EXTENDS Pipeline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Clause(ok, name) == IF ok THEN {} ELSE {name}
Set(q) == {q[k] : k \in 1..Len(q)}
Past == "2001-02-03T04:05:06Z made elsewhere\n with care"
Grids == {"g.nc", "h.nc", "gt.nc"}
St0 == [f \in Grids \cup {"u.nc", "u2.nc", "v.nc"} |->
            [kind |-> IF f \in Grids THEN "g" ELSE "u", vars |-> [v \in {"a", "b", "c"} |-> IF v = "c" THEN <<Past>> ELSE <<>>]]]
Starts(e, p) == Len(e) >= 21 + Len(p) /\ SubSeq(e, 22, 21 + Len(p)) = p
EventDone(s, o) == o.outcome = "ok" /\ o.file = 1
(* hist: <<variable, entries, words the last entry lacks>> *)
HistOf(o, n) == o.hist[CHOOSE k \in 1..Len(o.hist) : o.hist[k][1] = n]
Has(o, n) == \E k \in 1..Len(o.hist) : o.hist[k][1] = n
Check(st, s, o, first) ==
    IF Refused(st, s) THEN Clause(o.outcome = "error" /\ o.file = 0, "not refused")
    ELSE IF Clash(st, s) THEN {}
    ELSE IF o.outcome = "error" THEN Clause(o.lib = "error", "failed") \cup Clause(o.file = 0, "file left behind")
    ELSE LET new == OutNames(st, s) IN UNION {
        Clause(o.file = 1, "no file"),
        Clause(o.lib = "ok", "library refused"),
        Clause(o.differ = <<>>, "result"),
        Clause(o.text = 1, "printed"),
        Clause(new \subseteq Set(o.names), "variables"),
        IF \E n \in new : ~Has(o, n) THEN {}
        ELSE UNION {
            Clause(\A n \in new : LET es == HistOf(o, n)[2] IN es # <<>> /\ Starts(es[Len(es)], Prefix(IF s.cmd = "aggregate" /\ AnyKind(st, s) = "g" THEN "collapse" ELSE s.cmd)), "operation recorded"),
            Clause(\A n \in new : HistOf(o, n)[3] = <<>>, "operation details"),
            Clause(\A n \in new : LET es == HistOf(o, n)[2]
                                      src == Out(st, s, 0)[CHOOSE k \in 1..Len(Out(st, s, 0)) : Out(st, s, 0)[k][1] = n][2]
                                  IN es # <<>> /\ SubSeq(es, 1, Len(es) - 1) = src, "history kept")}}
After(st, s, o) ==
    IF Refused(st, s) \/ ~EventDone(s, o) THEN st
    ELSE IF Clash(st, s) \/ \E n \in OutNames(st, s) : ~Has(o, n) \/ HistOf(o, n)[2] = <<>> THEN st
    ELSE Write(st, s.out, NewFile(st, s, [n \in OutNames(st, s) |-> HistOf(o, n)[2][Len(HistOf(o, n)[2])]]))
RECURSIVE Walk(_, _, _)
Walk(e, st, k) == IF k > Len(e.steps) THEN {}
    ELSE Check(st, e.steps[k], e.out.steps[k], k = 1) \cup Walk(e, After(st, e.steps[k], e.out.steps[k]), k + 1)
Verdict(e) == IF e.out.outcome # "ok" THEN {"outcome"} ELSE Walk(e, St0, 1)
JInit == i \in 1..(IF Len(Trace) < 8 THEN Len(Trace) ELSE 8)
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

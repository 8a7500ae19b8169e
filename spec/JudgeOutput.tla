---------------------------- MODULE JudgeOutput ----------------------------
EXTENDS Output, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Clause(ok, name) == IF ok THEN {} ELSE {name}
Set(s) == {s[k] : k \in 1..Len(s)}
DirOf(d) == [n \in {d[k][1] : k \in 1..Len(d)} |-> d[CHOOSE k \in 1..Len(d) : d[k][1] = n][2]]
IsPlot(s) == s.kind \in {"plot", "plot_uu", "plot_gg"}
Req(s, fails) == [cmd |-> IF IsPlot(s) THEN "plot" ELSE "other", ins |-> {s.a, s.b} \ {""}, out |-> s.out, flag |-> s.flag > 0,
                  env |-> s.env, answers |-> s.answers, fails |-> fails]
Text == {3, 4, 5, 6}                      \* files that are not netCDF to begin with
(* st = [dir, dirty, fresh]; o = what was observed of this step *)
StepCheck(st, s, o) ==
    LET missing == \E n \in {s.a, s.b} \ {""} : n \notin DOMAIN st.dir
        maybe == missing \/ (IsPlot(s) /\ ~Ends(WithExt("plot", s.out), ".png")) \/ \E n \in {s.a, s.b} \ {""} : n \in DOMAIN st.dir /\ st.dir[n] \in st.dirty
        r == Req(s, s.kind = "fail" \/ missing)
        oc == IF maybe THEN Outcomes(st.dir, [r EXCEPT !.fails = missing]) \cup Outcomes(st.dir, [r EXCEPT !.fails = TRUE]) \cup (IF missing THEN {"error"} ELSE {})
              ELSE Outcomes(st.dir, r)
        t == Target(r)
        touch == MayTouch(st.dir, r, IF maybe /\ Allowed(st.dir, r) /\ ~Collides(st.dir, r) THEN "written" ELSE o.outcome)
    IN UNION {
        Clause(o.outcome \in oc, IF o.outcome = "written" THEN (IF Collides(st.dir, r) THEN "input overwritten" ELSE "written without permission")
                                 ELSE IF o.outcome = "kept" THEN "not written" ELSE "failed"),
        Clause(o.outcome \notin oc \/ maybe \/ o.prompts \in Prompts(st.dir, r), "prompts"),
        Clause(Set(o.changed) \subseteq touch, "another file changed"),
        Clause(Set(o.created) \subseteq touch, "another file created"),
        Clause(o.removed = <<>>, "file removed"),
        Clause(o.outcome # "written" \/ t \in DOMAIN st.dir \/ Set(o.created) = {t}, "output name"),
        Clause(o.outcome # "written" \/ r.cmd = "plot" \/ t \in Set(o.valid), "output content"),
        Clause(o.outcome # "written" \/ t \notin DOMAIN st.dir \/ st.dir[t] \notin Text \ st.dirty \/ t \in Set(o.changed), "output not replaced")}
Step(st, s, o) ==
    LET r == Req(s, FALSE)  t == Target(r)
        made == t \in Set(o.created)
    IN [dir |-> IF made THEN [n \in DOMAIN st.dir \cup {t} |-> IF n = t THEN st.fresh ELSE st.dir[n]] ELSE st.dir,
        dirty |-> st.dirty \cup (IF made THEN {st.fresh} ELSE {st.dir[n] : n \in Set(o.changed) \cap DOMAIN st.dir}),
        fresh |-> st.fresh + 1]
RECURSIVE Walk(_, _, _)
Walk(e, st, k) == IF k > Len(e.steps) THEN {}
    ELSE StepCheck(st, e.steps[k], e.out.steps[k]) \cup Walk(e, Step(st, e.steps[k], e.out.steps[k]), k + 1)
Verdict(e) == IF e.out.outcome # "ok" THEN {"outcome"} ELSE Walk(e, [dir |-> DirOf(e.dir), dirty |-> {}, fresh |-> 10], 1)
JInit == i \in 1..(IF Len(Trace) < 8 THEN Len(Trace) ELSE 8)
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

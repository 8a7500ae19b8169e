------------------------------ MODULE JudgeInterp ---------------------------
EXTENDS Interp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Verdict(e) ==
  LET o == e.out
      NS == Len(e.sc[1].v)
      Turn == 360 * e.q
      skip(s) == e.missing = 1 /\ e.sm # <<>> /\ e.sm[s] = 1
  IN IF o.outcome # "ok" THEN {"outcome"}
     ELSE UNION {
       Clause(Len(o.res) = Len(e.vars), "variables"),
       Clause(\A w \in 1..Len(o.res) : Len(o.res[w].v) = NS /\ \A s \in 1..NS :
              IF skip(s) THEN o.res[w].v[s] = MASKED
              ELSE SampleOk(e, WithMask(e.vars[w].v, e.vars[w].m), s, o.res[w].v[s]), "values"),
       Clause(\A w \in 1..Len(o.res) : o.res[w].name = IF e.out_name # "" THEN e.out_name ELSE e.vars[w].name, "names"),
       Clause(\A w \in 1..Len(o.res) : \A c \in 1..Len(e.sc) :
           LET g == ByStd(o.res[w].coords, e.sc[c].std).v IN
           \A s \in 1..NS : IF e.sc[c].std = "longitude" THEN (g[s] - e.sc[c].v[s]) % Turn = 0 ELSE g[s] = e.sc[c].v[s], "geometry"),
       Clause(o.after = o.before, "input")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

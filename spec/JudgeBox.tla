------------------------------- MODULE JudgeBox -----------------------------
EXTENDS Box, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Suffix(k) == IF k = 1 THEN "" ELSE IF k = 2 THEN "_std_dev" ELSE "_num_points"
Verdict(e) ==
  LET o == e.out
      n == IF e.kernel = "moments" THEN 3 ELSE 1
      NS == Len(e.sc[1].v)
      Turn == 360 * e.q
      skip(s) == e.missing = 1 /\ e.sm # <<>> /\ e.sm[s] = 1
      Base(w) == LET v == e.vars[((w - 1) \div n) + 1] IN IF e.out_name # "" THEN e.out_name ELSE v.name
  IN IF o.outcome # "ok" THEN {"outcome"}
     ELSE UNION {
       Clause(Len(o.res) = n * Len(e.vars), "variables"),
       Clause(\A w \in 1..Len(e.vars) : n * w <= Len(o.res) =>
           LET vals == WithMask(e.vars[w].v, e.vars[w].m) IN
           \A s \in 1..NS :
              LET got == [k \in 1..n |-> o.res[n * (w - 1) + k].v[s]] IN
              IF skip(s) THEN \A k \in 1..n : got[k] = MASKED ELSE SampleOk(e, e.kernel, s, vals, got), "selected"),
       Clause(\A w \in 1..Len(o.res) : o.res[w].name = Base(w) \o Suffix(((w - 1) % n) + 1), "names"),
       Clause(\A w \in 1..Len(o.res) : Len(o.res[w].v) = NS /\ \A c \in 1..Len(e.sc) :
           LET g == ByStd(o.res[w].coords, e.sc[c].std).v IN
           \A s \in 1..NS : IF e.sc[c].std = "longitude" THEN (g[s] - e.sc[c].v[s]) % Turn = 0 ELSE g[s] = e.sc[c].v[s], "geometry"),
       Clause(o.after = o.before, "input")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

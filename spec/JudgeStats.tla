----------------------------- MODULE JudgeStats -----------------------------
(* Recorded statistical comparisons.                                          *)
EXTENDS Stats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
RootIs(o, sq) == o.sq = sq /\ o.sgn = Sgn(sq)
RIs(o, c) == o.sq = c.sq /\ o.sgn = c.sgn
Verdict(e) ==
  LET o == e.out
      v == Vals(e.v, e.m, e.q)  w == Vals(e.w, e.n, e.r)
      b == Both(v, w)  x == Pick(v, b)  y == Pick(w, b)  c == Len(b)
      slope == c > 1 /\ ~Constant(x)
      curve == slope /\ ~Constant(y)
      zero == \E k \in 1..c : x[k][1] = 0 IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE LET s == o.stats IN
   UNION {Clause(o.before = o.after, "inputs changed"),
          Clause(s.num_points = <<c, 1>>, "number of points"),
          Clause(c = 0 \/ (s.dataset_mean_1 = Mean(x) /\ s.dataset_mean_2 = Mean(y)), "means"),
          Clause(c < 2 \/ (RootIs(s.dataset_stddev_1, Var1(x)) /\ RootIs(s.dataset_stddev_2, Var1(y))), "standard deviations"),
          Clause(c = 0 \/ s.abs_mean = Mean(Diff(x, y)), "mean difference"),
          Clause(c < 2 \/ RootIs(s.abs_stddev, Var1(Diff(x, y))), "stddev of difference"),
          Clause(c = 0 \/ zero \/ s.rel_mean = Mean(Rel(x, y)), "mean relative difference"),
          Clause(c < 2 \/ zero \/ RootIs(s.rel_stddev, Var1(Rel(x, y))), "stddev of relative difference"),
          Clause(c < 3 \/ ~curve \/ RIs(s.spearman, Corr(Ranks(x), Ranks(y))), "rank correlation"),
          Clause(c < 3 \/ ~slope \/ (s.regression_gradient = Grad(x, y) /\ s.regression_intercept = Icpt(x, y)), "regression"),
          Clause(c < 3 \/ ~curve \/ RIs(s.regression_r, Corr(x, y)), "correlation"),
          Clause(c < 3 \/ ~curve \/ RootIs(s.regression_stderr, Err2(x, y)), "standard error")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

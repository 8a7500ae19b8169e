---------------------------- MODULE JudgeKdTree -----------------------------
EXTENDS KdTree, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Tol == 5
Clause(ok, name) == IF ok THEN {} ELSE {name}
Verdict(e) ==
  LET o == e.out
      Q == 1..Len(e.D)
  IN  IF o.outcome # "ok" THEN {"outcome"}
      ELSE UNION {
        Clause(Len(o.nn) = Len(e.D) /\ Len(o.ball) = Len(e.D) /\ Len(o.tree) = Len(e.D), "length"),
        Clause(\A s \in Q : NearestOk(e.D[s], e.mask, e.k, o.nn[s], o.nnd[s], Tol), "nearest"),
        Clause(\A s \in Q : NearestOk(e.D[s], e.mask, 1, o.near[s], o.neard[s], Tol), "nearest_index"),
        Clause(\A s \in Q : BallOk(e.D[s], e.mask, e.r * 1000, o.ball[s], Tol), "range_point"),
        Clause(\A s \in Q : BallOk(e.D[s], e.mask, e.r * 1000, o.tree[s], Tol), "range_tree"),
        Clause(\A s \in Q : BallOk(e.D[s], e.mask, e.r * 1000, o.idx[s], Tol), "range_index"),
        Clause(\A s \in Q : \A g \in {o.ball[s], o.tree[s], o.idx[s]} : TogetherOk(e.same[s], e.mask, g), "same_place")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

--------------------------- MODULE JudgeUngridded ---------------------------
(* Recorded histories of ungridded datasets: after every step each dataset    *)
(* made so far, looked at through each of its views, is what the              *)
(* specification says.                                                        *)
EXTENDS Ungridded, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Src(e) == [shape |-> e.shape, v |-> WithMask(e.v, e.m), name |-> e.name, units |-> "1", note |-> "", att |-> "", hist |-> 0, cn |-> [k \in 1..Len(e.cs) |-> e.cs[k].std],
           cs |-> [k \in 1..Len(e.cs) |-> [std |-> e.cs[k].std, v |-> WithMask(e.cs[k].v, e.cs[k].m)]]]
\* clauses of one observed dataset x against the specified d
View(d, x, kind) ==
  LET n == Len(d.cs[1].v)  none == kind = "c" IN
  UNION {Clause(x.shape = d.shape, "shape"),
         Clause(x.v = d.v, "values"),
         Clause(x.flat = d.v, "flattened values"),
         Clause(x.cs = d.cs, "coordinates"),
         Clause(x.cflat = d.cs, "flattened coordinates"),
         Clause(x.df.cs = d.cs, "table coordinates"),
         Clause(none \/ x.df.v = Tabled(d.v), "table values"),
         Clause(x.tix = <<>> \/ \A k \in 1..Len(d.cs) : d.cs[k].std = "time" => x.tix = d.cs[k].v, "table index"),
         Clause(x.pts.cs = d.cs, "points"),
         Clause(none \/ x.pts.v = d.v, "point values"),
         Clause(none \/ x.nm = Pick(d.v, Unmasked(d.v)), "non-missing points"),
         Clause(x.hyper = <<>> \/ x.hyper = [k \in 1..Len(d.cs) |-> [std |-> d.cs[k].std, v |-> <<d.cs[k].v[n]>>]], "single point"),
         Clause(none \/ x.count = Len(Unmasked(d.v)), "count"),
         Clause(none \/ (x.name = d.name /\ x.units = d.units), "metadata"),
         Clause(none \/ (x.note = d.note /\ x.att = d.att /\ x.hist = d.hist), "notes"),
         Clause(x.cn = d.cn, "names of coordinates")}
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {LET h == Run(<<Expose(Src(e))>>, SubSeq(e.ops, 1, t - 1)) IN
              IF Len(o.obs[t]) # Len(h) THEN {"datasets"}
              ELSE UNION {View(h[k], o.obs[t][k], e.kind) : k \in 1..Len(h)} : t \in 1..Len(o.obs)}
       \cup Clause(Len(o.obs) = Len(e.ops) + 1, "steps")
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

----------------------------- MODULE JudgeDates -----------------------------
(* What the code made of partial dates, durations and limits.                 *)
EXTENDS Dates, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Refused == "refused"
AllDigits(s) == \A k \in 1..Len(s) : s[k] \in Digit
Times == {"t", "time", "T", "Time", "TIME"}
\* text which may also be meant as a number
Numeric(e, s) == s # <<>> /\ AllDigits(s) /\ ~(e.dim \in Times /\ (e.cmd = "subset" \/ Len(s) = 4))
Minus(x, y) == Settle(x[1] - y[1], x[2] - y[2])
Open(e) == Numeric(e, e.s) \/ Numeric(e, e.e) \/ (e.d # <<>> /\ AllDigits(e.d))
Limits(e) ==
  LET a == DateFields(e.s)  b == IF e.e = <<>> THEN a ELSE DateFields(e.e) IN
  IF \/ e.form # "ok" \/ a = <<>> \/ b = <<>>
     \/ e.cmd = "subset" /\ e.d # <<>>
     \/ e.cmd = "aggregate" /\ e.e = <<>>
     \/ e.cmd = "aggregate" /\ e.d # <<>> /\ Duration(e.d) = <<>>
  THEN <<>> ELSE <<FirstOf(a), LastOf(b)>>
Step(e, l) == IF e.cmd = "subset" THEN <<>> ELSE IF e.d # <<>> THEN Duration(e.d) ELSE Minus(Instant(l[2]), Instant(l[1]))
DateCase(e, o) == LET l == Limits(e) IN
  IF Open(e) /\ e.form = "ok" THEN {}
  ELSE IF l = <<>> THEN Clause(o.outcome = Refused, "malformed accepted")
  ELSE IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {Clause(o.lim = l, "limits"), Clause(o.step = Step(e, l), "step")}
LibCase(e, o) == IF ~Proper(e.f) THEN Clause(o.outcome = Refused, "malformed accepted")
  ELSE IF o.outcome # "ok" THEN {"outcome"} ELSE Clause(o.lim = <<FirstOf(e.f), LastOf(e.f)>>, "range")
DurCase(e, o) == LET d == Duration(e.d) IN
  IF AllDigits(e.d) THEN {}
  ELSE IF d = <<>> THEN Clause(o.outcome = Refused, "malformed accepted")
  ELSE IF o.outcome # "ok" THEN {"outcome"} ELSE Clause(o.dur = d, "duration")
\* numeric limits in quarters; v is the sequence of values in the brackets
NumBad(e) == \/ e.form # "ok"
             \/ e.cmd = "subset" /\ Len(e.v) \notin 1..2
             \/ e.cmd = "aggregate" /\ Len(e.v) \notin 2..3
             \/ LET b == IF Len(e.v) = 1 THEN e.v[1] ELSE e.v[2] IN e.dim \in {"x", "X"} /\ Len(e.v) > 0 /\ (e.v[1] > b \/ b - e.v[1] > 1440)
NumCase(e, o) == IF NumBad(e) THEN Clause(o.outcome = Refused, "malformed accepted")
  ELSE IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {Clause(o.num = <<e.v[1], IF Len(e.v) = 1 THEN e.v[1] ELSE e.v[2]>>, "limits"),
              Clause(o.nstep = (IF e.cmd = "subset" THEN <<>> ELSE IF Len(e.v) = 3 THEN <<e.v[3]>> ELSE <<e.v[2] - e.v[1]>>), "step")}
NotLater(x, y) == ~Earlier(y, x)
\* a time exactly on a limit can only be told when it is a whole number of 1/128 days
SubCase(e, o) == LET l == Limits(e)  a == Instant(l[1])  b == Instant(l[2])
                     In(k) == NotLater(a, e.n[k]) /\ NotLater(e.n[k], b)
                     Edge(k) == e.n[k] \in {a, b} /\ e.n[k][2] % 675 # 0
                     All == 1..Len(e.n) IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {Clause({k \in All : In(k) /\ ~Edge(k)} \subseteq Range(o.kept), "points dropped"),
              Clause(\A k \in Range(o.kept) : k \in All /\ (In(k) \/ Edge(k)), "points kept"),
              Clause(\A j, k \in 1..Len(o.kept) : j < k => o.kept[j] < o.kept[k], "order")}
\* cells of the aggregation grid: as many steps as it takes to reach the end
Cells(e, o) == LET l == Limits(e)  st == Step(e, l)  a == Instant(l[1])  b == Instant(l[2]) IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE LET n == Len(o.lo)  Times0(k) == LET t == k * st[2] IN Settle(a[1] + k * st[1] + (t \div Day), a[2] + (t % Day)) IN
       UNION {Clause(\A k \in 1..n : o.lo[k] = Times0(k - 1), "lower edges"),
              Clause(\A k \in 1..n : o.hi[k] = Times0(k) \/ (n = 1 /\ o.hi[k] = b), "upper edges"),
              Clause(Earlier(Times0(n - 1), b) /\ NotLater(b, Times0(n)), "number of cells")}
Verdict(e) == LET o == e.out IN
  CASE e.kind = "date" -> DateCase(e, o)
    [] e.kind = "lib" -> LibCase(e, o)
    [] e.kind = "dur" -> DurCase(e, o)
    [] e.kind = "num" -> NumCase(e, o)
    [] e.kind = "sub" -> SubCase(e, o)
    [] OTHER -> Cells(e, o)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

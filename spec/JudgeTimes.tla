----------------------------- MODULE JudgeTimes -----------------------------
(* Recorded time conversions.  An observed time is <<day, second>> counted    *)
(* from 1600-01-01, or <<>> where it is missing.                              *)
EXTENDS Calendar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Sec(u) == CASE u = "days" -> 86400 [] u = "hours" -> 3600 [] u = "minutes" -> 60 [] OTHER -> 1
\* Julian day 0 is the noon of day -2305448
Cal(e) == IF "cal" \in DOMAIN e THEN e.cal ELSE ""
Origin(e) == IF e.conv = "julian" THEN <<0 - 2305448, 43200>> ELSE CalInstant(Cal(e), e.ref)
AtStep(e, n) == Standard(Cal(e), Later(Origin(e), n, e.q, Sec(e.u)))
At(e, k) == AtStep(e, e.n[k])
Gone(e, k) == e.m # <<>> /\ e.m[k] = 1
Want(e) == [k \in 1..Len(e.n) |-> IF Gone(e, k) THEN <<>> ELSE At(e, k)]
WantDates(e) == [k \in 1..Len(e.n) |-> IF Gone(e, k) THEN <<>> ELSE Fields(At(e, k))]
WantBounds(e) == [k \in 1..Len(e.b) |-> AtStep(e, e.b[k])]
\* the order of the two bounds of a cell is free
Pairs(b) == [k \in 1..(Len(b) \div 2) |-> {b[2 * k - 1], b[2 * k]}]
Verdict(e) ==
  LET o == e.out IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {Clause(o.std = Want(e), "instants"),
              Clause(o.units = 1, "units"),
              Clause(o.shape = e.shape, "shape"),
              Clause("flat" \notin DOMAIN o \/ o.flat = Want(e), "flattened view"),
              Clause("dates" \notin DOMAIN o \/ o.dates = WantDates(e), "dates"),
              Clause("again" \notin DOMAIN o \/ o.again = Want(e), "back again"),
              Clause("points" \notin DOMAIN o \/ o.points = Want(e), "hyperpoints"),
              Clause("bounds" \notin DOMAIN o \/ Pairs(o.bounds) = Pairs(WantBounds(e)), "bounds"),
              Clause("before" \notin DOMAIN o \/ o.before = o.after, "rest of the cube")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

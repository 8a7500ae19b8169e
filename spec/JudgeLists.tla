----------------------------- MODULE JudgeLists -----------------------------
(* Recorded sessions: after each operation the lists and all data sets are    *)
(* what the specification says.                                               *)
EXTENDS Lists, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* limits which keep one latitude of a grid are not used: iris makes that axis a scalar
Single(s, op) == op.op \in {"subset", "between", "extract"} /\ s.lists[op.l].kind = "g" /\ \E k \in ToSet(s.lists[op.l].at) : Len(Within(s.heap[k].lat, op.a, op.b)) = 1
Done(s, op) == Can(s, op) /\ ~Single(s, op)
Filled(v) == [k \in 1..Len(v) |-> IF v[k] = MASKED THEN NANV ELSE v[k]]
VarName(n) == "v" \o ToString(n)
\* the table of a list of points: the coordinates of its first member and a column for each name
Columns(s, op) ==
  LET m == Members(s, op.l) IN
  {<<"latitude", m[1].lat>>, <<"longitude", m[1].lon>>} \cup (IF m[1].n = 3 THEN {<<"altitude", [k \in 1..Len(m[1].v) |-> 0]>>} ELSE {})
  \cup {<<VarName(m[k].name), Filled(m[k].v)>> : k \in {j \in 1..Len(m) : \A h \in (j + 1)..Len(m) : m[h].name # m[j].name}}
Same(o, x) == o.kind \notin {"g", "u"} \/ o = x
Step(s, op, x) ==
  IF ~Done(s, op) THEN Clause(x.out = "skip", "what can be done") ELSE
  LET r == Do(s, op) IN
  IF x.out # r.out THEN {"outcome of " \o op.op} ELSE
  UNION {Clause([l \in 1..Len(x.lists) |-> x.lists[l].kind] = [l \in 1..Len(r.s.lists) |-> r.s.lists[l].kind], "kind of the lists after " \o op.op),
         Clause([l \in 1..Len(x.lists) |-> x.lists[l].at] = [l \in 1..Len(r.s.lists) |-> r.s.lists[l].at], "members of the lists after " \o op.op),
         Clause(Len(x.heap) = Len(r.s.heap) /\ \A k \in 1..Min({Len(x.heap), Len(r.s.heap)}) : Same(r.s.heap[k], x.heap[k]), "data after " \o op.op),
         Clause(op.op # "names" \/ x.ans = r.ans, "names"), Clause(op.op # "frame" \/ (ToSet(x.ans) = Columns(s, op) /\ Len(x.ans) = Cardinality(Columns(s, op))), "table")}
RECURSIVE Run(_, _, _)
Run(s, prog, steps) == IF prog = <<>> THEN {} ELSE IF steps = <<>> THEN {"steps"} ELSE
  LET v == Step(s, prog[1], steps[1]) IN IF v # {} THEN v ELSE Run(IF Done(s, prog[1]) THEN Do(s, prog[1]).s ELSE s, Tail(prog), Tail(steps))
Verdict(e) == IF e.out.outcome # "ok" THEN {"session: " \o e.out.outcome} ELSE Run([heap |-> e.pool, lists |-> e.lists], e.prog, e.out.steps)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

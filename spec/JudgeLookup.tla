----------------------------- MODULE JudgeLookup ----------------------------
(* Recorded answers. Coordinates are told by the number they had at first.    *)
EXTENDS Lookup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Verdict(e) ==
  LET o == e.out  kept == Kept(e.cs, Len(e.cs))  cs == Pick(e.cs, kept)
      Numbers(s) == Pick(kept, s)
      One(n) == LET want == Numbers(Found(cs, e.qs[n]))  a == o.answers[n] IN
                UNION {Clause(a.all = want, "which coordinates"),
                       Clause(a.one = (IF Len(want) = 1 THEN want[1] ELSE 0), "the one coordinate")}
      std == StandardOf(cs)
  IN UNION {Clause(o.kept = kept, "which coordinates can be in one list"), Clause(o.standard = [j \in 1..5 |-> IF std[j] = 0 THEN 0 ELSE kept[std[j]]], "standard coordinates"),
            UNION {One(n) : n \in 1..Len(e.qs)}}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

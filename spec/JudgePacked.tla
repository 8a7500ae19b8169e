----------------------------- MODULE JudgePacked ----------------------------
(* Recorded readings of packed variables.                                     *)
EXTENDS Packed, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Verdict(e) ==
  LET o == e.out  s == Meaning(e) IN
  IF o.outcome # "ok" THEN {"outcome"}
  ELSE IF Len(o.v) # Len(s) THEN {"number of elements"}
  ELSE UNION {Clause(\A k \in 1..Len(s) : (s[k] = MASKV) => (o.v[k] = MASKV), "a missing element was read as data"),
              Clause(\A k \in 1..Len(s) : (o.v[k] = MASKV) => (s[k] \in {MASKV, UND, ANYV}), "an element which is there was read as missing"),
              Clause(\A k \in 1..Len(s) : (o.v[k] # MASKV /\ s[k] \notin {MASKV, ANYV}) => Match(s[k], o.v[k]), "values"),
              Clause(o.again = o.v, "reading again"),
              Clause(o.order, "coordinates of the elements")}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

------------------------------ MODULE MCDates ------------------------------
(* A partial date names exactly the period made up of the finer dates in it,  *)
(* writing and reading are inverse, and every short string is either refused  *)
(* or names one date.                                                         *)
EXTENDS Dates
CONSTANTS Y0, Y1, N
VARIABLES f, cs, kind
Alphabet == {"1", "2", "0", "-", ":", "T", " ", "P", "D", "M"}
Init == \/ kind = "date" /\ cs = <<>> /\ \E y \in Y0..Y1 : f = <<y>>
        \/ kind = "text" /\ cs = <<>> /\ f = <<>>
Next == \/ kind = "date" /\ Len(f) < 6 /\ (\E k \in DOMAIN Finer(f) : (Len(f) >= 3 => k \in {1, 2, 13, Len(Finer(f))}) /\ f' = Finer(f)[k]) /\ UNCHANGED <<cs, kind>>
        \/ kind = "text" /\ Len(cs) < N /\ (\E c \in Alphabet : cs' = Append(cs, c)) /\ UNCHANGED <<f, kind>>
IF0(p, a) == IF p THEN a ELSE TRUE
Covers == IF0(kind = "date",
  LET a == Instant(FirstOf(f))  b == Instant(LastOf(f)) IN
  /\ ValidDate(LastOf(f)[1], LastOf(f)[2], LastOf(f)[3]) /\ ~Earlier(b, a)
  /\ IF0(Len(f) < 6, LET g == Finer(f) IN
       /\ Instant(FirstOf(g[1])) = a /\ Instant(LastOf(g[Len(g)])) = b
       /\ \A k \in 1..(Len(g) - 1) : Instant(FirstOf(g[k + 1])) = Second(Instant(LastOf(g[k])))))
RoundTrip == IF0(kind = "date", \A sep \in {"T", ":", " "}, w \in 1..2 : DateFields(Render(f, sep, w)) = f)
Trim(f0) == Render(f0, "T", 2)
Texts == IF0(kind = "text",
  LET d == DateFields(cs)  p == Duration(cs) IN
  /\ IF0(d # <<>>, DateFields(Trim(d)) = d /\ p = <<>>)
  /\ IF0(p # <<>>, p[1] >= 0 /\ p[2] \in 0..(Day - 1) /\ d = <<>>))
=============================================================================

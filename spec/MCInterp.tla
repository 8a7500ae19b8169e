------------------------------- MODULE MCInterp -----------------------------
(* Interpolation as the code runs it: every axis is turned to increase, a     *)
(* circular one gets its first point again a turn later, the data follows,    *)
(* longitudes of the samples are moved by whole turns to the range centred on *)
(* the axis, each sample is located by searching, and the corners around it   *)
(* are combined.  A turn is eight units here.                                 *)
EXTENDS Interp
CONSTANTS Pts, Values, Holes, Xs
VARIABLES axis, vals, x, method, extrap, pc, p, d, y, out
vars == <<axis, vals, x, method, extrap, pc, p, d, y, out>>
Turn == 8
Q == 0
Axes == {[std |-> s, pts |-> pp, circ |-> c] : s \in {"longitude", "altitude"}, pp \in Pts, c \in {0, 1}}
Init == /\ axis \in {a \in Axes : (a.circ = 1 => a.std = "longitude" /\ Len(a.pts) > 1)
                                  /\ AbsI(a.pts[Len(a.pts)] - a.pts[1]) < Turn}
        /\ vals \in UNION {[1..k -> Values] : k \in {Len(axis.pts)}}
        /\ Cardinality({k \in 1..Len(vals) : vals[k] = MASKED}) <= Holes
        /\ x \in Xs /\ method \in {"lin", "nn"} /\ extrap \in {TRUE, FALSE}
        /\ pc = "turn" /\ p = axis.pts /\ d = vals /\ y = x /\ out = 0
Keep == UNCHANGED <<axis, vals, x, method, extrap>>
Turned == /\ pc = "turn" /\ pc' = "extend" /\ Keep /\ UNCHANGED <<y, out>>
          /\ IF Decreasing(p) /\ Len(p) > 1 THEN p' = Reverse(p) /\ d' = Reverse(d) ELSE UNCHANGED <<p, d>>
Extend == /\ pc = "extend" /\ pc' = "move" /\ Keep /\ UNCHANGED <<y, out>>
          /\ IF axis.circ = 1 THEN p' = Append(p, p[1] + Turn) /\ d' = Append(d, d[1]) ELSE UNCHANGED <<p, d>>
Move == /\ pc = "move" /\ pc' = "find" /\ Keep /\ UNCHANGED <<p, d, out>>
        /\ IF axis.std = "longitude"
           THEN \* twice the start of the range, to stay with integers
                LET start2 == p[1] + p[Len(p)] - Turn IN y' = x - Turn * ((2 * x - start2) \div (2 * Turn))
           ELSE y' = y
Find == /\ pc = "find" /\ pc' = "done" /\ Keep /\ UNCHANGED <<p, d, y>>
        /\ LET m == Len(p)
               raw == Cardinality({k \in 1..m : p[k] < y})
               i == MaxSet({1, MinSet({raw, m - 1})})
               oob == (y < p[1] \/ y > p[m]) /\ ~extrap
               a == IF m = 1 THEN 1 ELSE i
               b == IF m = 1 THEN 1 ELSE i + 1
               wb == IF m = 1 THEN 0 ELSE y - p[a]
               dd == IF m = 1 THEN 1 ELSE p[b] - p[a]
           IN out' = IF oob THEN [num |-> MASKED, den |-> 1]
                     ELSE IF method = "nn" THEN [num |-> d[IF 2 * wb <= dd THEN a ELSE b], den |-> 1]
                     ELSE IF d[a] = MASKED \/ d[b] = MASKED THEN [num |-> MASKED, den |-> 1]
                     ELSE [num |-> (dd - wb) * d[a] + wb * d[b], den |-> dd]
P1 == {<<0>>, <<1, 3>>, <<3, 1>>, <<0, 2, 4>>, <<6, 4, 1>>, <<0, 2, 4, 6>>, <<6, 4, 2, 0>>, <<-4, -2, 0, 2>>}
V1 == {0, 3, MASKED}
X1 == -7..12
P2 == P1 \cup {<<5>>, <<-1>>, <<7, 5, 2>>, <<-3, -1, 2>>, <<-4, 0>>, <<4, 0>>, <<1, 2, 3, 4, 5>>, <<9, 7, 5, 3>>}
V2 == {0, 7, MASKED}
X2 == -9..14
Next == Turned \/ Extend \/ Move \/ Find
Spec == Init /\ [][Next]_vars
E == [axes |-> <<axis>>, method |-> method, extrap |-> IF extrap THEN 1 ELSE 0]
AllowedBy == UNION {Choose1(<<Reduced(b, method)>>) : b \in {AxisBrackets(axis, x, Turn, extrap)}}
Correct == pc = "done" =>
    IF out.num = MASKED
    THEN AllowedBy = {} \/ \E ch \in AllowedBy : ChoiceOk(E, vals, ch, MASKED)
    ELSE \E ch \in AllowedBy : \* exactly the rational result
         LET cs == Corners(ch)  num == SumSeq([k \in 1..Len(cs) |-> IF cs[k].w = 0 THEN 0 ELSE cs[k].w * vals[cs[k].ix[1]]])
         IN  (\A k \in 1..Len(cs) : cs[k].w # 0 => vals[cs[k].ix[1]] # MASKED) /\ num * out.den = out.num * Den(ch)
\* at a grid point the result is the value there, whichever way the axis runs
Exact == pc = "done" /\ out.num # MASKED =>
    \A k \in 1..Len(axis.pts) : axis.pts[k] = x /\ vals[k] # MASKED => out.num = vals[k] * out.den
\* without extrapolation the result lies between the data values
Bounded == pc = "done" /\ out.num # MASKED /\ ~extrap =>
    LET V == {vals[k] : k \in 1..Len(vals)} \ {MASKED} IN MinSet(V) * out.den <= out.num /\ out.num <= MaxSet(V) * out.den
=============================================================================

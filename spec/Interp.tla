-------------------------------- MODULE Interp ------------------------------
(* Interpolation of gridded data onto points, in exact (rational) arithmetic. *)
(* A case e has data axes (sequence of [std, pts, circ]), values with missing *)
(* flags in C order, an optional vertical column e.col = [std, dims, v] (the  *)
(* altitude or pressure of the levels, over some of the axes, the level axis  *)
(* e.lev last), samples e.sc, the method and whether to extrapolate.          *)
EXTENDS Grid

SC == 100
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* a bracket: neighbours a, b (positions on the axis) with weights wa/d, wb/d
Bracket(p, i, a, b, x) ==
    LET s == Sgn(p[i + 1] - p[i])
        wa == s * (p[i + 1] - x)  wb == s * (x - p[i])
        g == Gcd(AbsI(wa), Gcd(AbsI(wb), AbsI(p[i + 1] - p[i])))
    IN  [a |-> a, b |-> b, wa |-> Sgn(wa) * (AbsI(wa) \div g), wb |-> Sgn(wb) * (AbsI(wb) \div g), d |-> AbsI(p[i + 1] - p[i]) \div g]
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
Only == [a |-> 1, b |-> 1, wa |-> 1, wb |-> 0, d |-> 1]
\* the neighbouring pairs of positions among points p which x lies between (at a point: either side); when there are
\* none, nothing, or the end it is nearest to if we extrapolate
Brackets(p, n, x, ex) ==
    LET m == Len(p)
        In == {i \in 1..(m - 1) : Between(x, p[i], p[i + 1])}
        End == IF AbsI(x - p[1]) < AbsI(x - p[m]) THEN 1 ELSE m - 1
        W(i) == IF i > n THEN 1 ELSE i
    IN  IF m = 1 THEN (IF x = p[1] \/ ex THEN {Only} ELSE {})
        ELSE {Bracket(p, i, W(i), W(i + 1), x) : i \in IF In = {} /\ ex THEN {End} ELSE In}
\* longitudes are the same place a whole turn away
AxisBrackets(axis, x, turn, ex) ==
    LET n == Len(axis.pts)
        dir == IF n = 1 THEN 1 ELSE Sgn(axis.pts[2] - axis.pts[1])
        p == IF axis.circ = 1 THEN Append(axis.pts, axis.pts[1] + dir * turn) ELSE axis.pts
        m == Len(p)
        Cand == {x + k * turn : k \in -4..4}
        Inside == {y \in Cand : Between(y, p[1], p[m])}
        Away(y) == AbsI(2 * y - p[1] - p[m])
    IN  IF axis.std # "longitude" THEN Brackets(p, n, x, ex)
        ELSE UNION {Brackets(p, n, y, ex) : y \in IF Inside # {} THEN Inside
                       ELSE {y \in Cand : \A z \in Cand : Away(y) <= Away(z)}}
\* nearest neighbour(s) of a bracket, as degenerate brackets
NearestOf(b) == {[a |-> w, b |-> w, wa |-> 1, wb |-> 0, d |-> 1] :
                   w \in (IF b.wa >= b.wb THEN {b.a} ELSE {}) \cup (IF b.wb >= b.wa THEN {b.b} ELSE {})}
Reduced(B, method) == IF method = "lin" THEN B ELSE UNION {NearestOf(b) : b \in B}

\* all choices of one bracket per axis
RECURSIVE Choose1(_)
Choose1(bs) == IF bs = <<>> THEN {<<>>}
               ELSE {<<b>> \o r : b \in Head(bs), r \in Choose1(Tail(bs))}
\* the corners of a choice: [ix, w] with ix an index tuple
RECURSIVE Corners(_)
Corners(ch) == IF ch = <<>> THEN <<[ix |-> <<>>, w |-> 1]>>
               ELSE LET b == Head(ch)  r == Corners(Tail(ch)) IN
                    [k \in 1..Len(r) |-> [ix |-> <<b.a>> \o r[k].ix, w |-> b.wa * r[k].w]] \o
                    [k \in 1..Len(r) |-> [ix |-> <<b.b>> \o r[k].ix, w |-> b.wb * r[k].w]]
Den(ch) == Prod([k \in 1..Len(ch) |-> ch[k].d])
Shape(e) == [k \in 1..Len(e.axes) |-> Len(e.axes[k].pts)]
\* is got (SC times the value, or MASKED) right for this choice of brackets of all of the axes?
ChoiceOk(e, vals, ch, got) ==
    LET cs == Corners(ch)
        at(k) == vals[Flat(Shape(e), cs[k].ix)]
        gap == \E k \in 1..Len(cs) : at(k) = MASKED
        hole == \E k \in 1..Len(cs) : at(k) = MASKED /\ cs[k].w # 0
        num == SumSeq([k \in 1..Len(cs) |-> IF at(k) = MASKED THEN 0 ELSE cs[k].w * at(k)])
    IN  IF got = MASKED THEN gap
        ELSE ~hole /\ got \notin {BAD, NANV} /\ AbsI(got * Den(ch) - SC * num) <= Den(ch)

At(cs, std, s) == ByStd(cs, std).v[s]
Ex(e) == e.extrap = 1
HasCol(e) == e.lev > 0
\* the brackets of the sampled axes; the level axis gets none
AxBr(e, s) == [k \in 1..Len(e.axes) |-> IF k = e.lev THEN {Only}
                 ELSE Reduced(AxisBrackets(e.axes[k], At(e.sc, e.axes[k].std, s), 360 * e.q, Ex(e)), e.method)]
\* heights of the levels at the place of a choice, times their denominator
ColDims(e, ch) == [j \in 1..Len(e.col.dims) |-> IF e.col.dims[j] = e.lev THEN Only ELSE ch[e.col.dims[j]]]
Column(e, ch) ==
    LET shp == [j \in 1..Len(e.col.dims) |-> Len(e.axes[e.col.dims[j]].pts)]
        cs == Corners(ColDims(e, ch))
        lv(ix, l) == [j \in 1..Len(ix) |-> IF e.col.dims[j] = e.lev THEN l ELSE ix[j]]
        \* Only has a zero-weight copy of itself as second corner
    IN  [l \in 1..Len(e.axes[e.lev].pts) |->
            SumSeq([k \in 1..Len(cs) |-> IF cs[k].w = 0 THEN 0 ELSE cs[k].w * e.col.v[Flat(shp, lv(cs[k].ix, l))]])]
SampleOk(e, vals, s, got) ==
    LET chs == Choose1(AxBr(e, s))
        outside == got = MASKED
        WithLevel(ch) ==
            LET C == Column(e, ch)
                z == At(e.sc, e.col.std, s) * Den(ColDims(e, ch))
                bs == Reduced(Brackets(C, Len(C), z, Ex(e)), e.method)
                \* rounding of the interpolated heights decides exactly at the ends of the column
                edge == z \in {C[1], C[Len(C)]} /\ Den(ColDims(e, ch)) > 1
            IN  \/ bs = {} /\ outside
                \/ edge /\ outside
                \/ \E b \in bs : ChoiceOk(e, vals, [ch EXCEPT ![e.lev] = b], got)
    IN  IF chs = {} THEN outside
        ELSE \E ch \in chs : IF HasCol(e) THEN WithLevel(ch) ELSE ChoiceOk(e, vals, ch, got)
=============================================================================

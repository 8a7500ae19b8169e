------------------------------- MODULE Arith --------------------------------
(* Arithmetic on ungridded datasets: a heap of datasets, each with the values *)
(* of its points, its coordinates, its name and its units (powers of metre    *)
(* and second). An operation makes a new dataset or, in place, changes its    *)
(* left operand; what cannot be computed is refused and changes nothing.      *)
EXTENDS Rat, Shapes
\* units: powers of metre, of second and of a thousand, and the base of the
\* logarithm they are under (0 none, 1 natural)
UMul(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4]>>
UInv(a) == <<-a[1], -a[2], -a[3], a[4]>>
UPow(a, k) == <<a[1] * k, a[2] * k, a[3] * k, a[4]>>
NoUnit == <<0, 0, 0, 0>>
Data(d) == d.v
\* the right operand: its shape, its values and its units
OpShape(h, p) == CASE p.kind = "ds" -> h[p.b].shape [] p.kind = "arr" -> p.xs [] p.kind = "alt" -> h[p.o].shape [] OTHER -> <<>>
OpVals(h, p) ==
  CASE p.kind = "ds"  -> Data(h[p.b])
    [] p.kind = "num" -> <<Norm(p.x[1], p.x[2])>>
    [] p.kind = "arr" -> Vals(p.x, p.xm, 1)
    [] p.kind = "alt" -> LET c == h[p.o].cs[1].v IN [k \in 1..Len(c) |-> Int2R(c[k])]
    [] OTHER          -> <<>>
\* an operand of shape t is repeated to fill the shape s, and never the other way round
Fits(s, t) == Len(t) <= Len(s) /\ \A j \in 1..Len(t) : t[j] \in {1, s[Len(s) - Len(t) + j]}
Operand(h, p) == LET s == h[p.o].shape  t == OpShape(h, p)  y == OpVals(h, p) IN [k \in 1..Size(s) |-> y[At(s, t, k - 1) + 1]]
HasUnits(p) == p.kind \in {"ds", "alt"}
UnitsOf(h, p) == IF p.kind = "ds" THEN h[p.b].units ELSE <<1, 0, 0, 0>>
Binary == {"add", "sub", "mul", "div"}
\* why an operation is refused: 0 not, 1 other units, 2 a shape which does not fit
Refusal(h, p) == IF p.op \in {"add", "sub"} /\ HasUnits(p) /\ UnitsOf(h, p) # h[p.o].units THEN 1
                 ELSE IF p.op \in Binary /\ ~Fits(h[p.o].shape, OpShape(h, p)) THEN 2 ELSE 0
Allowed(h, p) == Refusal(h, p) = 0
Base(op) == CASE op = "log" -> 1 [] op = "log2" -> 2 [] op = "log10" -> 10
Outcome(h, p) ==
  LET d == h[p.o]  n == Len(d.v)  y == IF p.op \in Binary THEN Operand(h, p) ELSE <<>>
      u == IF HasUnits(p) THEN UnitsOf(h, p) ELSE NoUnit IN
  CASE p.op \in {"add", "sub"} -> [d EXCEPT !.v = [k \in 1..n |-> RBin(p.op, d.v[k], y[k])]]
    [] p.op = "mul" -> [d EXCEPT !.v = [k \in 1..n |-> RBin("mul", d.v[k], y[k])], !.units = UMul(d.units, u)]
    [] p.op = "div" -> [d EXCEPT !.v = [k \in 1..n |-> RBin("div", d.v[k], y[k])], !.units = UMul(d.units, UInv(u))]
    [] p.op = "pow" -> [d EXCEPT !.v = [k \in 1..n |-> RPow(d.v[k], p.x[1])], !.units = UPow(d.units, p.x[1])]
    [] p.op = "abs" -> [d EXCEPT !.v = [k \in 1..n |-> RAbs(d.v[k])]]
    [] p.op = "exp" -> [d EXCEPT !.v = [k \in 1..n |-> RExp(d.v[k])], !.units = NoUnit]
    [] p.op \in {"log", "log2", "log10"} -> [d EXCEPT !.v = [k \in 1..n |-> RLog(d.v[k], Base(p.op))], !.units[4] = Base(p.op)]
\* what was done is noted in the history of what it was done to
Result(h, p) == LET r == Outcome(h, p) IN [r EXCEPT !.hist = @ + 1]
Ops == {"add", "sub", "mul", "div", "pow", "abs", "exp", "log", "log2", "log10"}
Apply(h, p) ==
  IF p.op \in Ops THEN IF ~Allowed(h, p) THEN h
                       ELSE IF p.how = "ip" THEN [h EXCEPT ![p.o] = Result(h, p)] ELSE Append(h, Result(h, p))
  ELSE CASE p.op = "setv"  -> [h EXCEPT ![p.o].v[p.x[1] + 1] = Int2R(p.x[2])]
         [] p.op = "maskv" -> [h EXCEPT ![p.o].v[p.x[1] + 1] = MASKV]
         [] p.op = "setc"  -> [h EXCEPT ![p.o].cs[p.x[1] + 1].v[p.x[2] + 1] = p.x[3]]
         [] p.op = "name"  -> [h EXCEPT ![p.o].name = "renamed"]
         [] p.op = "copy"  -> Append(h, h[p.o])
RECURSIVE Run(_, _)
Run(h, ops) == IF ops = <<>> THEN h ELSE Run(Apply(h, Head(ops)), Tail(ops))
=============================================================================

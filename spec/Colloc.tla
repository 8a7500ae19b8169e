------------------------------- MODULE Colloc -------------------------------
(* The contract every collocator fulfils, whatever it computes: the geometry, *)
(* names, fill value and missing points of its output.                        *)
EXTENDS Grid
Or(a, b) == IF a # "" THEN a ELSE b
\* (var_name, long_name, units) of each output variable of one data variable
Outputs(e, d) ==
  LET n == Or(e.name, d.name)  l == Or(e.long, d.long)  u == Or(e.units, d.units) IN
  IF e.kern # "moments" THEN <<<<n, l, u>>>>
  ELSE <<<<Or(e.knames[1], n), l, u>>,
         <<Or(e.knames[2], n \o "_std_dev"), "Corrected sample standard deviation of " \o l, u>>,
         <<Or(e.knames[3], n \o "_num_points"), "Number of points used to calculate the mean of " \o l, "">>>>
\* masking the points whose sample is missing is the default for a data sample, not for bare coordinates
MaskSample(e) == e.sm # <<>> /\ (e.missing = 1 \/ (e.missing = -1 /\ e.skind # "c"))
\* methods each pair of kinds accepts
Accepts(e) == CASE e.skind = "g" /\ e.dkind = "g" -> {"", "lin", "nn"}
                [] e.skind = "g" -> {"", "bin", "box"}
                [] e.dkind = "g" -> {"", "lin", "nn"}
                [] OTHER -> {"", "box"}
\* axes of gridded output: those of the sample which the data has, then the others of gridded data
Names(cs) == {cs[k].std : k \in 1..Len(cs)}
OutAxes(e, d) ==
  LET shared == SelectSeq(e.sc, LAMBDA a : a.std \in Names(d.cs)) IN
  IF e.dkind = "u" THEN shared ELSE shared \o SelectSeq(d.cs, LAMBDA a : a.std \notin Names(e.sc))
ShapeOf(axes) == [k \in 1..Len(axes) |-> Len(axes[k].v)]
\* for element p of an output on these axes, the element of the sample it lies on
SampleOf(e, axes, p) == Flat(ShapeOf(e.sc), SubSeq(Unflat(ShapeOf(axes), p), 1, Len(e.sc)))
\* the sample can tell which outputs to mask only when no axis of it is dropped
CanMask(e, d) == e.skind # "g" \/ \A k \in 1..Len(e.sc) : e.sc[k].std \in Names(d.cs)
\* what masking for missing sample points makes of the values v
Masked(e, d, v) ==
  IF ~MaskSample(e) \/ ~CanMask(e, d) THEN v
  ELSE IF e.skind = "g"
       THEN LET axes == OutAxes(e, d) IN [p \in 1..Len(v) |-> IF e.sm[SampleOf(e, axes, p)] = 1 THEN MASKED ELSE v[p]]
       ELSE [p \in 1..Len(v) |-> IF e.sm[p] = 1 THEN MASKED ELSE v[p]]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
=============================================================================

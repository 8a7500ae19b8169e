------------------------------- MODULE Stats --------------------------------
(* Statistics of two datasets over the points which neither is missing.       *)
(* Roots are stated through their squares.                                    *)
EXTENDS Rat
Both(v, w) == Where(Len(v), LAMBDA k : v[k] # MASKV /\ w[k] # MASKV)
RSub(x, y) == RPlus(x, RNeg(y))
RDiv(x, y) == RTimes(x, RInv(y))
Mean(s) == RTimes(RSum(s), <<1, Len(s)>>)
\* sum of products of deviations from the means
SS(s, t) == LET a == Mean(s)  b == Mean(t) IN RSum([k \in 1..Len(s) |-> RTimes(RSub(s[k], a), RSub(t[k], b))])
Var1(s) == RTimes(SS(s, s), <<1, Len(s) - 1>>)          \* corrected sample variance
Diff(x, y) == [k \in 1..Len(x) |-> RSub(y[k], x[k])]
Rel(x, y) == [k \in 1..Len(x) |-> RDiv(RSub(y[k], x[k]), x[k])]
\* average ranks
Rank(s, k) == LET lo == Cardinality({j \in 1..Len(s) : RCmp(s[j], s[k]) < 0})
                  eq == Cardinality({j \in 1..Len(s) : RCmp(s[j], s[k]) = 0}) IN Norm(2 * lo + eq + 1, 2)
Ranks(s) == [k \in 1..Len(s) |-> Rank(s, k)]
\* correlation coefficient as its sign and its square
Sgn(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
Corr(s, t) == [sgn |-> Sgn(SS(s, t)), sq |-> RDiv(RPow(SS(s, t), 2), RTimes(SS(s, s), SS(t, t)))]
Grad(s, t) == RDiv(SS(s, t), SS(s, s))
Icpt(s, t) == RSub(Mean(t), RTimes(Grad(s, t), Mean(s)))
\* squared standard error of the gradient
Err2(s, t) == RDiv(RSub(SS(t, t), RTimes(Grad(s, t), SS(s, t))), RTimes(SS(s, s), <<Len(s) - 2, 1>>))
Constant(s) == \A k \in 1..Len(s) : s[k] = s[1]
=============================================================================

CONSTANTS N = 3 M = 3
SPECIFICATION Spec
INVARIANT Means Symmetric Cauchy Itself RanksSum
PROPERTY Ignored

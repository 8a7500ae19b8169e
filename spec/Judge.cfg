INIT JInit
NEXT JNext
INVARIANT Judged

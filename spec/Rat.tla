-------------------------------- MODULE Rat ---------------------------------
(* Exact arithmetic on values which may be missing. A value is               *)
(*   <<n, d>>  the number n/d in lowest terms, d > 0                          *)
(*   <<>>      missing (masked)                                              *)
(*   <<0>>     not a number or infinite: an observation may show it as such   *)
(*             or as missing                                                 *)
(*   <<0,0,0>> not determined: it depends on how <<0>> was represented        *)
EXTENDS Common
MASKV == <<>>
UND == <<0>>
ANYV == <<0, 0, 0>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(AbsI(n), AbsI(d))  s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
Int2R(n) == <<n, 1>>
Fin(x) == Len(x) = 2
RNeg(x) == IF Fin(x) THEN <<-x[1], x[2]>> ELSE x
RAbs(x) == IF Fin(x) THEN <<AbsI(x[1]), x[2]>> ELSE x
RInv(x) == IF ~Fin(x) THEN x ELSE IF x[1] = 0 THEN UND ELSE Norm(x[2], x[1])
\* sums over the least common denominator
RPlus(x, y) == LET g == Gcd(x[2], y[2]) IN Norm(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
\* products with the common factors removed first
RTimes(x, y) == LET a == Norm(x[1], y[2])  b == Norm(y[1], x[2]) IN <<a[1] * b[1], a[2] * b[2]>>
RCmp(x, y) == LET g == Gcd(x[2], y[2]) IN x[1] * (y[2] \div g) - y[1] * (x[2] \div g)
RBin(op, x, y) ==
  IF x = MASKV \/ y = MASKV THEN MASKV
  ELSE IF Len(x) = 3 \/ Len(y) = 3 THEN ANYV
  ELSE IF op = "gt" THEN IF Fin(x) /\ Fin(y) THEN Int2R(IF RCmp(x, y) > 0 THEN 1 ELSE 0) ELSE ANYV
  ELSE IF op = "div" THEN IF ~Fin(y) THEN ANYV ELSE IF ~Fin(x) \/ y[1] = 0 THEN UND ELSE RTimes(x, RInv(y))
  ELSE IF ~Fin(x) \/ ~Fin(y) THEN UND
  ELSE CASE op = "add" -> RPlus(x, y)
         [] op = "sub" -> RPlus(x, RNeg(y))
         [] op = "mul" -> RTimes(x, y)
RECURSIVE RPow(_, _)
RPow(x, k) == IF ~Fin(x) THEN IF k = 0 /\ x # MASKV THEN ANYV ELSE IF k < 0 /\ x = UND THEN ANYV ELSE x
              ELSE IF k < 0 THEN RPow(RInv(x), -k)
              ELSE IF k = 0 THEN <<1, 1>> ELSE RTimes(x, RPow(x, k - 1))
\* logarithms and exponentials, where they are rational (b = 1 stands for the base e)
RECURSIVE LogOf(_, _)
LogOf(n, b) == IF n = 1 THEN 0 ELSE IF b > 1 /\ n % b = 0 THEN LET k == LogOf(n \div b, b) IN IF k < 0 THEN -1 ELSE k + 1 ELSE -1
RLog(x, b) == IF ~Fin(x) THEN x ELSE IF x[1] <= 0 THEN UND
              ELSE IF x[2] = 1 /\ LogOf(x[1], b) >= 0 THEN Int2R(LogOf(x[1], b))
              ELSE IF x[1] = 1 /\ LogOf(x[2], b) >= 0 THEN Int2R(-LogOf(x[2], b)) ELSE ANYV
RExp(x) == IF x = MASKV THEN x ELSE IF x = <<0, 1>> THEN <<1, 1>> ELSE ANYV
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RPlus(Head(s), RSum(Tail(s)))
Valid(v) == SelectSeq(v, LAMBDA x : x # MASKV)
\* over the values which are there
RMean(v) == LET a == Valid(v) IN
  IF a = <<>> THEN MASKV ELSE IF \E k \in 1..Len(a) : ~Fin(a[k]) THEN ANYV ELSE RTimes(RSum(a), <<1, Len(a)>>)
Match(s, o) == s = o \/ Len(s) = 3 \/ (s = UND /\ o \in {MASKV, UND})
MatchAll(s, o) == Len(s) = Len(o) /\ \A k \in 1..Len(s) : Match(s[k], o[k])
\* integers over q, with the missing marks of the harness
Val(x, q) == IF x = MASKED THEN MASKV ELSE IF x = NANV THEN UND ELSE Norm(x, q)
Vals(v, m, q) == LET w == WithMask(v, m) IN [k \in 1..Len(w) |-> Val(w[k], q)]
=============================================================================

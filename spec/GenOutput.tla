----------------------------- MODULE GenOutput -----------------------------
(* Every command with every spelling of an output, flag, environment and     *)
(* answer; and every pair of commands working on the same directory.         *)
EXTENDS Output, Json, IOUtils, SequencesExt
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Dir == << <<"g.nc", 1>>, <<"u.nc", 2>>, <<"hard.nc", 1>>, <<"sym.nc", 1>>, <<"old.nc", 3>>, <<"old", 4>>, <<"old.v1", 5>>, <<"p.png", 6>>, <<"usym.nc", 2>>, <<"h.nc", 7>>, <<"v.nc", 8>> >>
KindsGG == {"eval_gg", "stats_gg", "plot_gg"}
KindsUU == {"eval_uu", "plot_uu", "subset_uu"}
KindsG == {"subset_g", "collapse", "eval_g", "stats", "fail"} \cup KindsGG
KindsU == {"subset_u", "aggregate", "eval_u", "plot"} \cup KindsUU
Kinds == KindsG \cup KindsU \cup {"col_gu", "col_ug"}
Outs == <<"g.nc", "g", "hard", "sym.nc", "u.nc", "old", "old.nc", "old.v1", "new", "new.nc", "new.v2", "p", "p.png", "usym", "h", "h.nc", "v">>
Env == <<"", "TRUE", "True", "FALSE", "no", "0">>
Ans == << <<>>, <<"y">>, <<"n">>, <<"">>, <<"yes", "y">>, <<"x", "Y", "n">>, <<"q", "", "y">> >>
Pre == <<"", "./", "../", "abs", "lnk/">>
Step(k, o, f, e, a, p, s) ==
    [kind |-> k, a |-> (IF k \in KindsU \/ k = "col_ug" THEN (IF s % 5 = 0 THEN "usym.nc" ELSE "u.nc") ELSE (IF s % 3 = 0 THEN "hard.nc" ELSE IF s % 3 = 1 THEN "g.nc" ELSE "sym.nc")),
     b |-> (IF k \in KindsGG THEN "h.nc" ELSE IF k \in KindsUU THEN "v.nc" ELSE IF k = "col_gu" THEN "u.nc" ELSE IF k = "col_ug" THEN "sym.nc" ELSE ""),
     out |-> o, pre |-> p, ipre |-> Pre[1 + (s % 5)], flag |-> f, env |-> e, answers |-> a]
KS == SetToSeq(Kinds)
Singles == LET q == SetToSeq({<<k, o, e, a>> \in (1..Len(KS)) \X (1..Len(Outs)) \X (1..Len(Env)) \X (1..Len(Ans)) :
                              (a = 1 + ((k + o + e) % Len(Ans)) /\ (Quick => (k + 3 * o + e) % 3 = 0)) \/ (~Quick /\ (k + o + e + a) % 3 = 0)})
           IN [n \in 1..Len(q) |-> LET t == q[n] IN
                [dir |-> Dir, steps |-> <<Step(KS[t[1]], Outs[t[2]], IF (t[1] + t[2]) % 7 = 0 THEN 1 + (n % 2) ELSE 0, Env[t[3]], Ans[t[4]], Pre[1 + ((n + t[4]) % 5)], n)>>]]
\* forced commands onto their own inputs, in every spelling
Own == LET q == SetToSeq({<<k, o, p, f>> \in (1..Len(KS)) \X {"g", "hard.nc", "sym.nc", "u.nc", "usym", "h", "v.nc"} \X (1..5) \X (0..2) : Quick => (k + p + f) % 3 = 0})
       IN [n \in 1..Len(q) |-> LET t == q[n] IN [dir |-> Dir, steps |-> <<Step(KS[t[1]], t[2], t[4], IF t[4] = 0 THEN "TRUE" ELSE "", <<>>, Pre[t[3]], n)>>]]
Pairs == LET q == SetToSeq({<<k, o, m, r>> \in {"subset_g", "subset_u", "fail"} \X {"new", "old.nc", "u.nc", "g"} \X {"subset_g", "aggregate", "eval_g"} \X {"new", "old", "g.nc", "sym"} : TRUE})
         IN [n \in 1..Len(q) |-> LET t == q[n] IN
              [dir |-> Dir, steps |-> <<Step(t[1], t[2], n % 3, "", <<"y">>, "", n), Step(t[3], t[4], (n \div 2) % 3, Env[1 + (n % 6)], Ans[1 + (n % 7)], Pre[1 + (n % 5)], n)>>]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, Singles \o Own \o Pairs)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================

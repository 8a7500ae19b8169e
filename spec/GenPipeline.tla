---------------------------- MODULE GenPipeline ----------------------------
EXTENDS Pipeline, Json, IOUtils, SequencesExt
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Blank == [cmd |-> "", groups |-> <<>>, kernel |-> "", lims |-> <<>>, grid |-> <<>>, dims |-> <<>>, samp |-> [file |-> "", var |-> ""], how |-> "", opts |-> <<>>,
          expr |-> "", ov |-> "", units |-> "", attrs |-> <<>>, out |-> ""]
E == <<>>
Files == [f \in {"g.nc", "h.nc", "gt.nc", "u.nc", "u2.nc", "v.nc"} |->
             [kind |-> IF f \in {"g.nc", "h.nc", "gt.nc"} THEN "g" ELSE "u", vars |-> [v \in {"a", "b", "c"} |-> E]]]
Group(fs, vs) == [files |-> fs, vars |-> vs]
Samp(f, v) == [file |-> f, var |-> v]
(* what can be done with the variables vs of file f *)
Work(k, f, vs) ==
    LET B == [Blank EXCEPT !.groups = <<Group(<<f>>, vs)>>]
        one == [Blank EXCEPT !.groups = <<Group(<<f>>, <<Head(vs)>>)>>]
    IN {[B EXCEPT !.cmd = "subset", !.lims = l] : l \in {<< <<"y", -25, 30>> >>, << <<"latitude", -50, 5>>, <<"x", 5, 85>> >>}}
       \cup (IF k = "u" THEN {[B EXCEPT !.cmd = "aggregate", !.grid = << <<"y", -90, 90, 45>>, <<"x", 0, 360, 60>> >>, !.kernel = q] : q \in {"", "moments", "mean", "max"}}
                             \cup {[one EXCEPT !.cmd = "aggregate", !.grid = << <<"t", 0, 20, 5>>, <<"latitude", -60, 60, 30>> >>, !.kernel = "sum"],
                                   [one EXCEPT !.cmd = "subset", !.lims = << <<"t", 3, 14>> >>]}
             ELSE {[B EXCEPT !.cmd = c, !.dims = d, !.kernel = q] : c \in {"collapse", "aggregate"}, d \in {<<"x">>, <<"latitude">>}, q \in {"", "mean", "stddev"}}
                  \cup {[B EXCEPT !.cmd = "collapse", !.dims = <<"x", "y">>, !.kernel = "max"]})
       \cup (IF k = "u" THEN {[B EXCEPT !.cmd = "col", !.samp = Samp("g.nc", v), !.how = h, !.kernel = q] : v \in {"", "b"}, h \in {"", "bin"}, q \in {"", "min"}}
                             \cup {[B EXCEPT !.cmd = "col", !.samp = Samp(sf, v), !.how = "box", !.opts = << <<"h_sep", "1500">> >>, !.kernel = q] :
                                       sf \in {"u2.nc", "g.nc"}, v \in {"", "a"}, q \in {"", "nn_h", "mean"}}
             ELSE {[B EXCEPT !.cmd = "col", !.samp = Samp(sf, v), !.how = h] : sf \in {"u.nc", "h.nc"}, v \in {"", "a"}, h \in {"", "nn", "lin"}}
                  \cup {[one EXCEPT !.cmd = "col", !.samp = Samp("u.nc", ""), !.how = "nn",
                                    !.opts = << <<"fill_value", "-7">>, <<"var_name", "renamed">>, <<"var_long_name", "words">>, <<"var_units", "m">> >>],
                        [one EXCEPT !.cmd = "col", !.samp = Samp("u2.nc", "b"), !.how = "lin", !.opts = << <<"missing_data_for_missing_sample", "False">> >>],
                        [one EXCEPT !.cmd = "col", !.samp = Samp("u2.nc", ""), !.how = "lin", !.opts = << <<"extrapolate", "True">> >>],
                        [one EXCEPT !.cmd = "col", !.samp = Samp("u2.nc", ""), !.how = "lin", !.opts = << <<"extrapolate", "bare">> >>],
                        [one EXCEPT !.cmd = "col", !.samp = Samp("u2.nc", ""), !.how = "lin", !.opts = << <<"missing_data_for_missing_sample", "bare">> >>],
                        [one EXCEPT !.cmd = "col", !.samp = Samp("u2.nc", ""), !.how = "lin", !.opts = << <<"extrapolate", "yes">> >>]})
       \cup {[one EXCEPT !.cmd = "eval", !.expr = Head(vs) \o " * 2 - 1", !.units = "kg", !.attrs = << <<"q", "v w">> >>],
             [B EXCEPT !.cmd = "eval", !.expr = Head(vs) \o " + " \o vs[Len(vs)], !.units = "1", !.ov = "a"]}
(* commands on the files given at the start only *)
First == UNION {
    UNION {Work(Files[f].kind, f, vs) : f \in {"g.nc", "h.nc", "u.nc", "v.nc"}, vs \in {<<"a">>, <<"a", "b">>, <<"c">>, <<"c", "a">>}},
    {[Blank EXCEPT !.cmd = "stats", !.groups = gs] : gs \in {<<Group(<<f>>, <<"a", "b">>)>> : f \in {"g.nc", "u.nc"}}
        \cup {<<Group(<<f>>, <<"c">>), Group(<<f>>, <<"a">>)>> : f \in {"g.nc", "v.nc"}} \cup {<<Group(<<"u.nc">>, <<"a", "b", "c">>)>>, <<Group(<<"g.nc">>, <<"a">>)>>}},
    {[Blank EXCEPT !.cmd = "col", !.groups = <<Group(<<"u.nc">>, <<"a">>), Group(<<"v.nc">>, <<"b", "c">>)>>, !.samp = Samp("g.nc", v), !.how = "bin", !.kernel = q]
        : v \in {"", "a"}, q \in {"", "sum"}},
    {[Blank EXCEPT !.cmd = "col", !.groups = <<Group(<<"g.nc">>, <<"b">>), Group(<<"h.nc">>, <<"a">>), Group(<<"g.nc">>, <<"c">>)>>, !.samp = Samp(sf, ""), !.how = "nn"]
        : sf \in {"u.nc", "h.nc"}},
    {[Blank EXCEPT !.cmd = "eval", !.groups = <<Group(<<f>>, <<"a">>), Group(<<f>>, <<"b", "c">>)>>, !.expr = "(a - b) / c", !.units = "m s-1", !.ov = "res"] : f \in {"g.nc", "u.nc"}},
    {[Blank EXCEPT !.cmd = "subset", !.groups = <<Group(<<"u.nc", "u2.nc">>, <<"a", "b">>)>>, !.lims = << <<"y", -25, 30>> >>],
     [Blank EXCEPT !.cmd = "aggregate", !.groups = <<Group(<<"u2.nc", "u.nc">>, <<"b">>)>>, !.grid = << <<"y", -90, 90, 45>> >>, !.kernel = "mean"],
     [Blank EXCEPT !.cmd = "subset", !.groups = <<Group(<<"gt.nc">>, <<"a", "b">>)>>, !.lims = << <<"t", 3, 14>> >>],
     [Blank EXCEPT !.cmd = "collapse", !.groups = <<Group(<<"gt.nc">>, <<"b", "a">>)>>, !.dims = <<"t">>],
     [Blank EXCEPT !.cmd = "col", !.groups = <<Group(<<"gt.nc">>, <<"a">>)>>, !.samp = Samp("u.nc", "a"), !.how = "lin"],
     [Blank EXCEPT !.cmd = "collapse", !.groups = <<Group(<<"u.nc">>, <<"a">>)>>, !.dims = <<"x">>],
     [Blank EXCEPT !.cmd = "aggregate", !.groups = <<Group(<<"g.nc">>, <<"a">>)>>, !.grid = << <<"y", -90, 90, 45>> >>],
     [Blank EXCEPT !.cmd = "subset", !.groups = <<Group(<<"u.nc">>, <<"a">>)>>, !.lims = << <<"y", 80, 85>> >>],
     [Blank EXCEPT !.cmd = "subset", !.groups = <<Group(<<"u.nc">>, <<"nosuch">>)>>, !.lims = << <<"y", -20, 25>> >>]}}
St0 == Files
Pairs(S) == UNION {IF Refused(St0, s) \/ Clash(St0, s) \/ s.cmd = "stats" THEN {}
                   ELSE LET new == NewFile(St0, s, [v \in OutNames(St0, s) |-> s.cmd])
                            o == Out(St0, s, 0)
                            vs == [k \in 1..(IF Len(o) > 2 THEN 2 ELSE Len(o)) |-> o[k][1]]
                        IN {<<[s EXCEPT !.out = "f1.nc"], [t EXCEPT !.out = "f2.nc"]>> : t \in Work(new.kind, "f1.nc", vs)} : s \in S}
Some(S, m) == LET q == SetToSeq(S) IN {q[j] : j \in {k \in 1..Len(q) : k % m = 0}}
Cases == LET F == {<<[s EXCEPT !.out = "f1.nc"]>> : s \in First}
             P == Pairs(First)
         IN F \cup (IF Quick THEN Some(P, 60) ELSE P)
GInit == g = 0
GNext == UNCHANGED g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({[steps |-> c] : c \in Cases}))
=============================================================================

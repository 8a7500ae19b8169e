------------------------------ MODULE GenGroup ------------------------------
(* Every combination of one or two (thorough: three) options of every kind of *)
(* group, of variable lists and file lists, well formed or not.               *)
EXTENDS Group, Json, IOUtils, SequencesExt
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Vars == <<"v", "v,w", "a b", "x\\:y", "g/v", "v,v", "v*", ",", "", "v,,w">>
Aliased == <<"v=a", "v=a,w=b", "v=a,w=a", "v=", "=a", "v=a=b", "v,w=v", "v", "v\\:w=a", "v=w,w=v", "v,v">>
FilesT == <<"a.nc", "b.nc,a.nc", "a.nc,a.nc", "c\\:d.nc", "c:d.nc", "none.nc", "", "e,c\\:d.nc,e,a.nc", "a.nc,none.nc", "x f.nc">>
BasicO == <<"product=cis", "cis", "product=Bogus", "Bogus", "product=cis=x", "foo=cis", "product=MODIS_L2", "prod=cis",
            "product", "", "[cis]", "product=[cis]", "Product=cis", "kernel=mean">>
AggO == <<"product=cis", "kernel=mean", "kernel=max", "product=Bogus", "kernel=bogus", "cis", "mean", "foo=mean",
          "kernel=mean=x", "kernel=mean[]", "product=(cis)", "kernel=cis", "kernel=moments", "product=mean">>
SampleO == <<"variable=v", "variable=v=1", "collocator=bin", "collocator=box[h_sep=10km,a_sep=5]", "collocator=box[]",
             "collocator=box[h_sep=1", "collocator=box[h_sep=1]x", "collocator=box[h_sep=1,h_sep=2]", "collocator=lin[extrapolate]",
             "collocator=box[var_long_name=m (a,b),h_sep=1]", "collocator=box[h_sep=1,var_units=a=b]", "collocator=[h_sep=1]",
             "collocator=box]", "kernel=mean", "kernel=nn_t", "kernel=mean[]", "product=cis", "product=Bogus", "bin", "foo=bin",
             "variable=w", "collocator=nn[missing_data_for_missing_sample=True,fill_value=-9.5]", "constraint=c[x=1]",
             "variable=a,b", "variable=[a,b]", "collocator=lin[extrapolate=yes]", "collocator=lin[extrapolate=false,fill_value=1]", "collocator=nn[missing_data_for_missing_sample=1]">>
PlotO == <<"label=a b", "label=x=y", "label=[a,b]", "label=(a,b)", "label=c\\:d", "color=Red", "color=nocolour", "edgecolor=blue",
           "vmin=-2.5", "vmin=abc", "vmax=250", "alpha=0.125", "alpha=5,", "contlevels=[1,2.5]", "contlevels=[1,x]", "contlevels=250",
           "contnlevels=4", "contnlevels=4.5", "contwidth=3", "contlabel=true", "contlabel=False", "contlabel=maybe", "type=line",
           "type=bogus", "itemstyle=o", "cmap=RdBu", "product=cis", "product=Bogus", "itemwidth=2", "foo=1", "label", "colour=red",
           "vstep=1", "cbarscale=2", "colourbar=false", "cbarlabel=m s-1", "cbarorient=vertical", "label=z", "Label=z">>
Pool(k) == CASE k = "basic" -> BasicO [] k = "eval" -> SubSeq(BasicO, 1, 6) [] k = "agg" -> AggO [] k = "sample" -> SampleO [] OTHER -> PlotO
Kinds == <<"basic", "agg", "sample", "plot", "eval">>
Grp(k, v, f, o) == [g |-> k, s |-> (IF k = "sample" THEN "" ELSE v \o ":") \o f \o (IF o = "" THEN "" ELSE ":" \o o)]
Cmd(k, n) == CASE k = "basic" -> (<<"subset", "sub", "info", "col">>)[1 + (n % 4)] [] k = "agg" -> (<<"aggregate", "agg", "collapse">>)[1 + (n % 3)]
               [] k = "sample" -> "collocate" [] k = "eval" -> "eval" [] OTHER -> "plot"
Case(k, grp, n) == LET c == Cmd(k, n) IN
   [cmd |-> c, o |-> "", attrs |-> "", dims |-> (IF c = "collapse" THEN <<"x,y">> ELSE <<>>),
    groups |-> IF k = "sample" THEN << [g |-> "basic", s |-> "v:b.nc"], grp>>
               ELSE IF c = "col" THEN <<grp, [g |-> "sample", s |-> "b.nc:kernel=max"]>> ELSE <<grp>>]
OptSeqs(k) == LET P == Range(Pool(k)) IN
   {<<a>> : a \in P} \cup {<<a, b>> : a, b \in P}
     \cup (IF Quick \/ k = "plot" THEN {} ELSE {<<a, b, c>> : a, b, c \in P})
OptCases(k) == LET q == SetToSeq(OptSeqs(k)) IN
   [n \in 1..Len(q) |-> Case(k, Grp(k, "v", "a.nc", JoinWith(q[n], ",")), n)]
WordCases(k) == LET vs == IF k = "eval" THEN Aliased ELSE Vars
                    q == SetToSeq({<<i, j, m>> \in (1..Len(vs)) \X (1..Len(FilesT)) \X (1..4) : k = "sample" => i = 1})
                IN [n \in 1..Len(q) |-> Case(k, Grp(k, vs[q[n][1]], FilesT[q[n][2]],
                      (<<"", Pool(k)[1], "product=cis", "product=cis:product=cis">>)[q[n][3]]), n)]
(* several groups, and the commands which need a given number of variables *)
Multi == LET G1 == <<"v:a.nc", "v,w:a.nc", "x\\:y:c\\:d.nc:cis", "v:a.nc:product=Bogus">>
             q == SetToSeq({<<c, i, j, m>> \in {"stats", "col", "eval", "plot"} \X (1..4) \X (0..4) \X (0..4) : c # "stats" => m # 3})
             grp(c, t) == [g |-> (IF c = "stats" \/ c = "col" THEN "basic" ELSE c), s |-> t]
             L(c, i, j, m) == <<grp(c, G1[i])>> \o (IF j = 0 THEN <<>> ELSE <<grp(c, G1[j])>>) \o (IF m = 0 THEN <<>> ELSE <<grp(c, G1[m])>>)
         IN [n \in 1..Len(q) |-> LET t == q[n] IN [cmd |-> t[1], o |-> "", attrs |-> "", dims |-> <<>>,
               groups |-> L(t[1], t[2], t[3], t[4]) \o (IF t[1] = "col" THEN <<[g |-> "sample", s |-> "b.nc:collocator=bin"]>> ELSE <<>>)]]
Attrs == <<"a=b", "a=b,c=d", "a", "=b", "a=", "a=b,c", "a=b c", ",", "a=b,">>
EvalX == LET q == SetToSeq({<<i, j>> \in (1..Len(Attrs)) \X (1..4) : TRUE})
         IN [n \in 1..Len(q) |-> [cmd |-> "eval", o |-> (<<"", "out", "ov:out", "a:b:out">>)[q[n][2]], attrs |-> Attrs[q[n][1]], dims |-> <<>>,
                                  groups |-> <<[g |-> "eval", s |-> "v=a:a.nc"]>>]]
Dims == << <<"x,y">>, <<"x">>, <<"x", "y">>, <<"t", "latitude", "z">> >>
ColX == [n \in 1..Len(Dims) |-> [cmd |-> "collapse", o |-> "", attrs |-> "", dims |-> Dims[n], groups |-> <<[g |-> "agg", s |-> "v:a.nc:kernel=mean"]>>]]
Info == [n \in 1..Len(FilesT) |-> [cmd |-> "info", o |-> "", attrs |-> "", dims |-> <<>>,
            groups |-> <<[g |-> (IF Len(Words(FilesT[n])) = 1 THEN "infofile" ELSE "basic"), s |-> FilesT[n]]>>]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT,
    FlattenSeq([k \in 1..5 |-> OptCases(Kinds[k])]) \o FlattenSeq([k \in 1..5 |-> WordCases(Kinds[k])]) \o Multi \o EvalX \o ColX \o Info)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================

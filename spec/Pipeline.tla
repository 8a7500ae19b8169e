---------------------------- MODULE Pipeline ----------------------------
(* P03: what running commands one after another leaves in the files.    *)
(*                                                                      *)
(* A file has a kind ("g" gridded, "u" ungridded) and variables, each    *)
(* with a history: the operations which made it, oldest first.  A        *)
(* command reads some variables from some files and writes one new file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

StatsNames == <<"num_points", "dataset_mean_1", "dataset_mean_2", "dataset_stddev_1", "dataset_stddev_2", "abs_mean", "abs_stddev",
                "rel_mean", "rel_stddev", "spearman", "regression_gradient", "regression_intercept", "regression_r", "regression_stderr">>
Prefix(cmd) == CASE cmd = "subset" -> "Subsetted using limits"
                 [] cmd = "aggregate" -> "Aggregated using CIS version"
                 [] cmd = "collapse" -> "Collapsed using CIS version"
                 [] cmd = "col" -> "Collocated onto sampling from"
                 [] cmd = "eval" -> "Evaluated using CIS version"
                 [] cmd = "stats" -> "Statistical comparison performed using CIS version"
(* the three results of the moments kernel *)
Moments(n) == <<n, n \o "_std_dev", n \o "_num_points">>
Opt(s, k) == LET m == {j \in 1..Len(s.opts) : s.opts[j][1] = k} IN IF m = {} THEN "" ELSE s.opts[CHOOSE j \in m : TRUE][2]

GKind(st, g) == st[g.files[1]].kind
AnyKind(st, s) == IF s.groups = <<>> THEN "" ELSE GKind(st, s.groups[1])
(* which collocator runs when none is named *)
How(st, s) == IF s.how # "" THEN s.how
              ELSE LET d == AnyKind(st, s) k == st[s.samp.file].kind
                   IN IF d = "g" THEN "lin" ELSE IF k = "g" THEN "bin" ELSE "box"
UsesKernel(st, s) == CASE s.cmd \in {"aggregate", "collapse"} -> TRUE
                       [] s.cmd = "col" -> How(st, s) \in {"bin", "box"}
                       [] OTHER -> FALSE
Fan(st, s, n) == IF UsesKernel(st, s) /\ s.kernel \in {"", "moments"} THEN Moments(n) ELSE <<n>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* [file, var] of everything read, in order *)
Sources(s) == Flat([k \in 1..Len(s.groups) |-> [j \in 1..Len(s.groups[k].vars) |-> <<s.groups[k].files[1], s.groups[k].vars[j]>>]])

(* the command cannot work on these files, whatever they hold *)
Refused(st, s) ==
    \/ \E k \in 1..Len(s.groups) : \E f \in {s.groups[k].files[j] : j \in 1..Len(s.groups[k].files)} : f \notin DOMAIN st
    \/ s.cmd = "col" /\ s.samp.file \notin DOMAIN st
    \/ \E k \in 1..Len(s.groups) : \E v \in {s.groups[k].vars[j] : j \in 1..Len(s.groups[k].vars)} : v \notin DOMAIN st[s.groups[k].files[1]].vars
    \/ s.cmd \in {"subset", "aggregate", "collapse"} /\ Len(s.groups) # 1
    \/ s.cmd = "collapse" /\ AnyKind(st, s) # "g"
    \/ s.cmd = "aggregate" /\ AnyKind(st, s) = "g" /\ s.grid # <<>>
    \/ s.cmd = "stats" /\ Len(Sources(s)) # 2
    \/ s.cmd = "col" /\ \E k \in {"missing_data_for_missing_sample", "extrapolate"} : Opt(s, k) \notin {"", "True", "False", "true", "false", "bare"}
    \/ s.cmd = "col" /\ AnyKind(st, s) = "g" /\ How(st, s) \notin {"lin", "nn", "box"}
    \/ s.cmd = "col" /\ AnyKind(st, s) = "u" /\ How(st, s) \notin {"bin", "box", "nn"}

(* result variables: sequence of [name, history before this command, does that history count?] *)
Out(st, s, i) ==
    IF s.cmd = "stats" THEN [k \in 1..14 |-> <<StatsNames[k], <<>>>>]
    ELSE IF s.cmd = "eval" THEN << <<IF s.ov = "" THEN "calculated_variable" ELSE s.ov, <<>>>> >>
    ELSE Flat([k \in 1..Len(Sources(s)) |->
             LET src == Sources(s)[k]
                 n == IF s.cmd = "col" /\ Opt(s, "var_name") # "" THEN Opt(s, "var_name") ELSE src[2]
                 f == Fan(st, s, n)
             IN [j \in 1..Len(f) |-> <<f[j], st[src[1]].vars[src[2]]>>]])
OutKind(st, s) == CASE s.cmd = "aggregate" -> "g" [] s.cmd = "stats" -> "g" [] s.cmd = "col" -> st[s.samp.file].kind [] OTHER -> AnyKind(st, s)

OutNames(st, s) == LET o == Out(st, s, 0) IN {o[k][1] : k \in 1..Len(o)}
(* two results of the same name can not both be kept *)
Clash(st, s) == Cardinality(OutNames(st, s)) # Len(Out(st, s, 0))
(* the new file, where last is the entry this command adds *)
NewFile(st, s, last) ==
    LET o == Out(st, s, 0)
    IN [kind |-> OutKind(st, s), vars |-> [n \in OutNames(st, s) |-> Append(o[CHOOSE k \in 1..Len(o) : o[k][1] = n][2], last[n])]]
Write(st, f, new) == [n \in DOMAIN st \cup {f} |-> IF n = f THEN new ELSE st[n]]
(* does a file hold this history after being written?  (an unchanged history is carried along) *)
=============================================================================

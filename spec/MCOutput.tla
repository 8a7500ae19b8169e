---------------------------- MODULE MCOutput ----------------------------
(* A user working in a directory: commands whose outputs become inputs of *)
(* later ones, and a guard that looks at one file at a time, as the code   *)
(* does.  The guard must imply the declarative rules.                      *)
EXTENDS Output, TLC
CONSTANTS Depth
Files == 1..(3 + Depth)
Start == ("a.nc" :> 1) @@ ("l.nc" :> 1) @@ ("o.nc" :> 2) @@ ("o" :> 3) @@ ("o.v1" :> 3)
VARIABLES dir, ver, n
vars == <<dir, ver, n>>
Reqs == {[cmd |-> c, ins |-> I, out |-> o, flag |-> f, env |-> e, answers |-> a, fails |-> FALSE] :
            c \in {"subset", "plot"}, I \in {S \in SUBSET DOMAIN dir : Cardinality(S) = 1},
            o \in {"l", "l.nc", "o", "o.v1", "p"}, f \in BOOLEAN, e \in {"", "TRUE", "no", "False"},
            a \in {<<>>, <<"y">>, <<"zz", "n">>, <<"">>}}
(* the guard: the same decisions made one after the other *)
Guard(r) == LET t == Target(r) IN
    IF t \in DOMAIN dir THEN
        LET ok == IF r.flag THEN TRUE ELSE IF r.env \in {"TRUE"} THEN TRUE ELSE IF r.env = "False" THEN FALSE
                  ELSE LET a == Answer(r.answers, 1) IN a # <<>> /\ a[1] = "y"
        IN IF ~ok THEN "kept" ELSE IF dir[t] \in {dir[i] : i \in r.ins} THEN "error" ELSE "written"
    ELSE "written"
Init == dir = Start /\ ver = [f \in Files |-> 0] /\ n = 0
(* what must be true of a step; old files are those named in dir *)
Old == {dir[m] : m \in DOMAIN dir}
Refines(r) == Guard(r) \in Outcomes(dir, r)
InputsSafe(r) == \A f \in Old : ver'[f] # ver[f] => \A i \in r.ins : dir[i] # f
Permission(r) == \A f \in Old : ver'[f] # ver[f] => (r.flag \/ r.env = "TRUE" \/ Yes(r))
OnlyTarget(r) == \A m \in DOMAIN dir : ver'[dir[m]] # ver[dir[m]] => m \in MayTouch(dir, r, Guard(r))
OneNewName(r) == DOMAIN dir \subseteq DOMAIN dir' /\ DOMAIN dir' \subseteq DOMAIN dir \cup {Target(r)}
Run(r) == LET oc == Guard(r)  t == Target(r) IN
    /\ n < Depth /\ n' = n + 1
    /\ dir' = After(dir, r, oc, 3 + n + 1)
    /\ ver' = IF oc = "written" THEN [ver EXCEPT ![dir'[t]] = (@ + 1) % 3] ELSE ver
    /\ Assert(Refines(r), <<"refines", dir, r>>) /\ Assert(InputsSafe(r), <<"input", dir, r>>)
    /\ Assert(Permission(r), <<"permission", dir, r>>) /\ Assert(OnlyTarget(r), <<"target", dir, r>>)
    /\ Assert(OneNewName(r), <<"names", dir, r>>)
Next == \E r \in Reqs : Run(r)
Spec == Init /\ [][Next]_vars
Extension == \A m \in DOMAIN dir : m \in DOMAIN Start \/ Ends(m, ".nc") \/ HasDot(m)
ASSUME WithExt("subset", "o.v1") = "o.v1.nc" /\ WithExt("plot", "o.pdf") = "o.pdf" /\ WithExt("plot", "o") = "o.png"
=========================================================================

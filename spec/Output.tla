---------------------------- MODULE Output ----------------------------
(* P02: what a command may do to the files around it.                  *)
(*                                                                     *)
(* A directory maps names to files; links make several names the same  *)
(* file.  A command reads some files, names an output, and may be      *)
(* forced (option, environment) or confirmed (answers at the prompt).  *)
EXTENDS Integers, Sequences, FiniteSets

Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
HasDot(s) == \E i \in 2..Len(s) : SubSeq(s, i, i) = "."
WithExt(cmd, o) == IF cmd = "plot" THEN (IF HasDot(o) THEN o ELSE o \o ".png")
                   ELSE IF Ends(o, ".nc") THEN o ELSE o \o ".nc"

Forced(flag, env) == flag \/ env \in {"TRUE", "True", "true"}
Denied(flag, env) == ~flag /\ env \in {"FALSE", "False", "false"}     \* not documented: may refuse without asking
Valid == {"y", "n", ""}
(* the first answer understood counts; <<>> when the answers run out before that *)
RECURSIVE Answer(_, _)
Answer(as, k) == IF k > Len(as) THEN <<>> ELSE IF as[k] \in Valid THEN <<as[k], k>> ELSE Answer(as, k + 1)

(* dir: name -> file; r: [cmd, ins (names), out, flag, env, answers]   *)
Target(r) == WithExt(r.cmd, r.out)
Exists(dir, r) == Target(r) \in DOMAIN dir
Collides(dir, r) == Exists(dir, r) /\ \E n \in DOMAIN dir : n \in r.ins /\ dir[n] = dir[Target(r)]
Asked(dir, r) == Exists(dir, r) /\ ~Forced(r.flag, r.env) /\ ~Denied(r.flag, r.env)
Yes(r) == LET a == Answer(r.answers, 1) IN a # <<>> /\ a[1] = "y"
No(r) == LET a == Answer(r.answers, 1) IN a # <<>> /\ a[1] # "y"
Allowed(dir, r) == ~Exists(dir, r) \/ Forced(r.flag, r.env) \/ (Asked(dir, r) /\ Yes(r))
(* what may come of it *)
Outcomes(dir, r) ==
    IF ~Allowed(dir, r) THEN
         (IF Collides(dir, r) \/ (Asked(dir, r) /\ ~No(r)) \/ (Denied(r.flag, r.env) /\ r.fails) THEN {"kept", "error"} ELSE {"kept"})
    ELSE IF Collides(dir, r) \/ r.fails THEN {"error"}
    ELSE {"written"}
(* a run that fails after permission was given may leave a half-written output, but never touches anything else *)
MayTouch(dir, r, oc) == IF oc = "written" THEN {Target(r)} \cup (IF Exists(dir, r) THEN {n \in DOMAIN dir : dir[n] = dir[Target(r)]} ELSE {}) ELSE {}
Prompts(dir, r) == IF ~Asked(dir, r) THEN {0}
                   ELSE LET a == Answer(r.answers, 1) IN
                        {IF a = <<>> THEN Len(r.answers) + 1 ELSE a[2]} \cup (IF Collides(dir, r) THEN {0} ELSE {})
After(dir, r, oc, fresh) == IF oc = "written" /\ ~Exists(dir, r)
                            THEN [n \in DOMAIN dir \cup {Target(r)} |-> IF n = Target(r) THEN fresh ELSE dir[n]] ELSE dir
======================================================================

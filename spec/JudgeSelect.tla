----------------------------- MODULE JudgeSelect ----------------------------
(* Recorded expansions of file and variable specifications.                   *)
EXTENDS Select, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
\* the contents of all the files one after the other, with what is missing in them
Joined(e) == FlattenSeq([k \in 1..Len(e.t.content) |-> [j \in 1..Len(e.t.content[k]) |->
               IF e.form = "list" /\ k % 2 = 0 /\ j % 2 = 0 THEN MASKED ELSE e.t.content[k][j]]])
OfFiles(e) ==
  LET o == e.out  t == e.t  want == Files(t, e.els) IN
  IF Refused(t, e.els) THEN UNION {Clause(o.outcome = "refused", "a file which does not exist was accepted"), Clause(o.read = "refused", "read although a file does not exist")}
  ELSE IF o.outcome # "ok" THEN {"refused although every file exists"}
  ELSE UNION {Clause(ToSet(o.got) = ToSet(want), "which files"), Clause(Len(o.got) = Cardinality(ToSet(o.got)), "a file twice"), Clause(o.got = want, "order of files"),
              IF o.read = "" THEN {} ELSE IF want = <<>> THEN Clause(o.read = "refused", "read nothing")
              ELSE UNION {Clause(o.read = "ok", "could not be read"), Clause(o.content = Content(t, e.els), "content"), Clause(o.filenames = want, "names of the files read"),
                          Clause(o.command = want, "files of the command line")}}
OfVars(e) ==
  LET o == e.out  want == Chosen(e) IN
  IF Unknown(e) \/ Shared(e) \/ want = <<>> THEN Clause(o.outcome = "refused", "accepted what names nothing")
  ELSE IF o.outcome # "ok" THEN {"refused what names variables"}
  ELSE UNION {Clause([k \in 1..Len(o.got) |-> o.got[k].var] = [k \in 1..Len(want) |-> want[k].var], "which variables"), Clause(o.got = want, "aliases"),
              Clause(o.values, "data of another variable"), Clause(o.one, "kind of list")}
Verdict(e) == IF e.kind = "files" THEN OfFiles(e) \cup Clause(e.out.joined = Joined(e), "contents joined") ELSE OfVars(e)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

----------------------------- MODULE JudgeGroup -----------------------------
(* What the code made of a command line.                                      *)
EXTENDS Group, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Clause(ok, name) == IF ok THEN {} ELSE {name}
All(e) == 1..Len(e.groups)
Ws(e, k) == Words(e.groups[k].s)
G(e, k) == e.groups[k].g
RECURSIVE VarCount(_, _)
VarCount(e, k) == IF k = 0 THEN 0 ELSE VarCount(e, k - 1) + Len(VarList(G(e, k), Ws(e, k)))
AliasOf(v) == Alias(v)[Len(Alias(v))]
RECURSIVE AllAliases(_, _)
AllAliases(e, k) == IF k = 0 THEN <<>>
    ELSE AllAliases(e, k - 1) \o [n \in 1..Len(VarList("eval", Ws(e, k))) |-> AliasOf(VarList("eval", Ws(e, k))[n])]
Distinct(s) == \A a, b \in 1..Len(s) : s[a] = s[b] => a = b

AttrBad(t) == \E n \in 1..Len(Commas(t)) : LET a == Commas(t)[n] IN a # "" /\ (~HasKey(a) \/ KeyOf(a) = "" \/ ValOf(a) = "")
AttrAny(t) == \/ \E n \in 1..Len(Commas(t)) : Commas(t)[n] = "" \/ FindEq(ValOf(Commas(t)[n]), 1) > 0
              \/ \E m, n \in 1..Len(Commas(t)) : m < n /\ KeyOf(Commas(t)[m]) = KeyOf(Commas(t)[n])
Statuses(e) == {GroupStatus(G(e, k), e.groups[k].s) : k \in All(e)}
    \cup (IF "bad" \in {GroupStatus(G(e, k), e.groups[k].s) : k \in All(e)} THEN {}
          ELSE (IF e.cmd = "stats" /\ VarCount(e, Len(e.groups)) # 2 THEN {"bad"} ELSE {})
               \cup (IF e.cmd = "eval" /\ ~Distinct(AllAliases(e, Len(e.groups))) THEN {"bad"} ELSE {})
               \cup (IF e.attrs = "" THEN {} ELSE IF AttrBad(e.attrs) THEN {"bad"} ELSE IF AttrAny(e.attrs) THEN {"any"} ELSE {})
               \cup (IF Len(Split(e.o, ":", 1, "", <<>>)) > 2 THEN {"bad"} ELSE {}))

Has(o, k) == \E n \in 1..Len(o.opts) : o.opts[n].k = k
Got(o, k) == o.opts[CHOOSE n \in 1..Len(o.opts) : o.opts[n].k = k]
Bool(v) == v \in {"true", "True", "TRUE"}
ValueOk(kind, v, x) ==
    CASE Status(kind, v) = "any" -> TRUE
      [] kind \in {"raw", "product", "kernel", "type"} -> x.t = "s" /\ x.s = v
      [] kind = "colour" -> x.t = "s" /\ Lower(x.s) = Lower(v)
      [] kind \in {"num", "int"} -> x.t = "n" /\ x.n = Mil(v)
      [] kind = "list" -> x.t = "l" /\ x.l = [n \in 1..Len(NumList(v)) |-> Mil(NumList(v)[n])]
      [] kind = "bool" -> x.t = "b" /\ x.n = (IF Bool(v) THEN 1 ELSE 0)
      [] kind \in {"method", "colloc"} -> /\ x.t = "m" /\ x.s = MName(v)
                            /\ Len(x.args) = Len(MArgs(v))
                            /\ \A n \in 1..Len(MArgs(v)) : LET a == MArgs(v)[n] IN
                                 \E m \in 1..Len(x.args) : x.args[m] = <<MKey(a), IF HasKey(a) THEN ValOf(a) ELSE "", IF HasKey(a) THEN "=" ELSE "bare">>
      [] OTHER -> FALSE
GroupCheck(gk, s, o) ==
    LET ws == Words(s)  os == Opts(gk, ws)  vs == VarList(gk, ws)  fs == NonBlank(FileList(gk, ws)) IN
    UNION {
      Clause(IF gk \in {"sample", "infofile"} THEN o.vars = <<>>
             ELSE IF gk = "plot" THEN o.vars = <<VarText(gk, ws)>>
             ELSE IF gk = "eval" THEN o.vars = [n \in 1..Len(vs) |-> Alias(vs[n])[1]]
             ELSE o.vars = vs, "variables"),
      Clause(gk # "eval" \/ o.aliases = [n \in 1..Len(vs) |-> AliasOf(vs[n])], "aliases"),
      Clause(o.files = Unique(fs), "files"),
      Clause({o.opts[n].k : n \in 1..Len(o.opts)} = {KeyOf(os[n]) : n \in 1..Len(os)} \/ \E n \in 1..Len(os) : ValOf(os[n]) = "", "options given"),
      Clause(\A n \in 1..Len(os) : Has(o, KeyOf(os[n])) => ValueOk(Kind(gk, KeyOf(os[n])), ValOf(os[n]), Got(o, KeyOf(os[n]))), "option value")}
Check(e, o) == UNION {
    Clause(Len(o.groups) = Len(e.groups), "number of groups"),
    UNION {GroupCheck(G(e, k), e.groups[k].s, o.groups[k]) : k \in 1..(IF Len(o.groups) = Len(e.groups) THEN Len(e.groups) ELSE 0)},
    Clause(e.cmd # "eval" \/ AttrAny(e.attrs) \/ {o.attrs[n] : n \in 1..Len(o.attrs)} =
           (IF e.attrs = "" THEN {} ELSE {<<KeyOf(Commas(e.attrs)[n]), ValOf(Commas(e.attrs)[n])>> : n \in 1..Len(Commas(e.attrs))}), "attributes"),
    Clause(e.cmd # "eval" \/ o.ovar = (LET w == Split(e.o, ":", 1, "", <<>>) IN IF Len(w) = 2 THEN w[1] ELSE ""), "output variable"),
    Clause(e.cmd # "collapse" \/ o.dims = (IF Len(e.dims) = 1 THEN Commas(e.dims[1]) ELSE e.dims), "dimensions")}
Verdict(e) == LET st == Statuses(e)  o == e.out IN
    IF "bad" \in st THEN Clause(o.outcome = "refused", "malformed accepted")
    ELSE IF o.outcome = "refused" THEN Clause("any" \in st, "well-formed refused")
    ELSE IF o.outcome # "ok" THEN {"outcome"}
    ELSE Check(e, o)
JInit == i \in 1..(IF Len(Trace) < 8 THEN Len(Trace) ELSE 8)
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================

---------------------------- MODULE Group ----------------------------
(* P01: the little language of CIS data groups.                        *)
(*                                                                     *)
(*   group   ::= word (":" word)*         "\:" is a literal colon      *)
(*   options ::= option ("," option)*     separators inside [] or ()   *)
(*   option  ::= key "=" value            are literal                  *)
(*   method  ::= name [ "[" arg ("," arg)* "]" ]                       *)
(*                                                                     *)
(* Everything here is a function of the text alone; the state machine  *)
(* that reads the text one character at a time is in MCGroup.          *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE JoinWith(_, _)
JoinWith(ws, sep) == IF Len(ws) = 0 THEN "" ELSE IF Len(ws) = 1 THEN ws[1]
                     ELSE ws[1] \o sep \o JoinWith(Tail(ws), sep)

(* ---------------------------------------------------------- splitting *)
RECURSIVE ScanColon(_, _, _, _)
ScanColon(s, i, cur, ws) ==
    IF i > Len(s) THEN Append(ws, cur)
    ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) = ":" THEN ScanColon(s, i + 2, cur \o ":", ws)
    ELSE IF Ch(s, i) = ":" THEN ScanColon(s, i + 1, "", Append(ws, cur))
    ELSE ScanColon(s, i + 1, cur \o Ch(s, i), ws)
Words(s) == ScanColon(s, 1, "", <<>>)

RECURSIVE Esc(_, _)
Esc(s, i) == IF i > Len(s) THEN "" ELSE IF Ch(s, i) = ":" THEN "\\:" \o Esc(s, i + 1) ELSE Ch(s, i) \o Esc(s, i + 1)

Opens == {"[", "("}
Closer(c) == IF c = "[" THEN "]" ELSE ")"
(* st = closers still expected, innermost first *)
RECURSIVE ScanOut(_, _, _, _, _, _)
ScanOut(s, sep, i, cur, ws, st) ==
    IF i > Len(s) THEN [ws |-> Append(ws, cur), open |-> Len(st) > 0]
    ELSE LET c == Ch(s, i) IN
         IF c \in Opens THEN ScanOut(s, sep, i + 1, cur \o c, ws, <<Closer(c)>> \o st)
         ELSE IF Len(st) > 0 /\ c = st[1] THEN ScanOut(s, sep, i + 1, cur \o c, ws, Tail(st))
         ELSE IF c = sep /\ Len(st) = 0 THEN ScanOut(s, sep, i + 1, "", Append(ws, cur), st)
         ELSE ScanOut(s, sep, i + 1, cur \o c, ws, st)
Pieces(s, sep) == ScanOut(s, sep, 1, "", <<>>, <<>>).ws
Unclosed(s) == ScanOut(s, ",", 1, "", <<>>, <<>>).open

RECURSIVE Split(_, _, _, _, _)          \* plain split at every separator
Split(s, sep, i, cur, ws) ==
    IF i > Len(s) THEN Append(ws, cur)
    ELSE IF Ch(s, i) = sep THEN Split(s, sep, i + 1, "", Append(ws, cur))
    ELSE Split(s, sep, i + 1, cur \o Ch(s, i), ws)
Commas(s) == Split(s, ",", 1, "", <<>>)
NonBlank(ws) == SelectSeq(ws, LAMBDA w : w # "")

(* ------------------------------------------------------------ options *)
RECURSIVE FindEq(_, _)
FindEq(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "=" THEN i ELSE FindEq(s, i + 1)
HasKey(o) == FindEq(o, 1) > 0
KeyOf(o) == SubSeq(o, 1, FindEq(o, 1) - 1)
ValOf(o) == SubSeq(o, FindEq(o, 1) + 1, Len(o))

RECURSIVE FindOpen(_, _)
FindOpen(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "[" THEN i ELSE FindOpen(s, i + 1)

(* a collocator or kernel: its name and named parameters (value "" and flag TRUE for a bare name) *)
MName(v) == IF FindOpen(v, 1) = 0 THEN v ELSE SubSeq(v, 1, FindOpen(v, 1) - 1)
MInner(v) == IF FindOpen(v, 1) = 0 THEN "" ELSE SubSeq(v, FindOpen(v, 1) + 1, Len(v) - 1)
MArgs(v) == NonBlank(Pieces(MInner(v), ","))
MKey(a) == IF HasKey(a) THEN KeyOf(a) ELSE a
(* brackets must enclose everything after the name *)
RECURSIVE ClosedAt(_, _, _)
ClosedAt(s, i, st) ==                   \* position where the bracket opened first closes, 0 if never
    IF i > Len(s) THEN 0
    ELSE LET c == Ch(s, i) IN
         IF c = "[" THEN ClosedAt(s, i + 1, <<"]">> \o st)
         ELSE IF Len(st) > 0 /\ c = st[1] THEN (IF Len(st) = 1 THEN i ELSE ClosedAt(s, i + 1, Tail(st)))
         ELSE ClosedAt(s, i + 1, st)
MBad(v) == \/ MName(v) = ""
           \/ \E i \in 1..Len(MName(v)) : Ch(v, i) \in {"]", ","}
           \/ FindOpen(v, 1) > 0 /\ ClosedAt(v, FindOpen(v, 1), <<>>) # Len(v)
           \/ FindOpen(v, 1) > 0 /\ \E i, j \in 1..Len(MArgs(v)) : i < j /\ MKey(MArgs(v)[i]) = MKey(MArgs(v)[j])
(* whether blank parameters, "k=" and stray round brackets are tolerated is left open *)
MAny(v) == \/ Pieces(v, "]") # <<v>>          \* round brackets that do not match
           \/ \E i \in 1..Len(MInner(v)) : Ch(MInner(v), i) = "[" /\ \E j \in 1..(i - 1) : Ch(MInner(v), j) = "["
           \/ \E i \in 1..Len(MName(v)) : Ch(v, i) \in {"(", ")", "=", " "}
           \/ FindOpen(v, 1) > 0 /\ MInner(v) # "" /\ \E i \in 1..Len(Pieces(MInner(v), ",")) :
                LET a == Pieces(MInner(v), ",")[i] IN a = "" \/ (HasKey(a) /\ (KeyOf(a) = "" \/ ValOf(a) = ""))

(* the parameters of a collocator which are either true or false; a bare name stands for true *)
Booleans == {"true", "false", "True", "False", "TRUE", "FALSE"}
FlagBad(v) == \E i \in 1..Len(MArgs(v)) : LET a == MArgs(v)[i] IN
                 HasKey(a) /\ KeyOf(a) \in {"extrapolate", "missing_data_for_missing_sample"} /\ ValOf(a) \notin Booleans

(* numbers as thousandths; anything else is not one (exponents are not used) *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CHOOSE d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, acc * 10 + Digit(Ch(s, i)))
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
Neg(s) == s # "" /\ Ch(s, 1) = "-"
Dot(s) == Split(s, ".", 1, "", <<>>)
IsInt(s) == Unsigned(s) # "" /\ AllDigits(Unsigned(s)) /\ Len(Unsigned(s)) <= 5
IsNum(s) == LET d == Dot(Unsigned(s)) IN
            \/ IsInt(s)
            \/ Len(d) = 2 /\ Len(d[1]) \in 1..5 /\ Len(d[2]) \in 1..3 /\ AllDigits(d[1]) /\ AllDigits(d[2])
NotNum(s) == s = "" \/ \E i \in 1..Len(s) : Ch(s, i) \in {"a", "b", "c", "x", "z", "[", ",", "=", "(", " "}
Mil(s) == LET d == Dot(Unsigned(s))
              f == IF Len(d) = 1 THEN 0
                   ELSE NatOf(d[2], 1, 0) * (IF Len(d[2]) = 1 THEN 100 ELSE IF Len(d[2]) = 2 THEN 10 ELSE 1)
              m == NatOf(d[1], 1, 0) * 1000 + f
          IN IF Neg(s) THEN 0 - m ELSE m

(* -------------------------------------------------------- vocabularies *)
Products == {"ASCII_Hyperpoints", "Aeronet", "Aerosol_CCI_L2", "Aerosol_CCI_L3", "Caliop_L1", "Caliop_L2",
             "Caliop_L2_NO_PRESSURE", "CloudSat", "Cloud_CCI_L2", "Cloud_CCI_L3", "HadGEM_CONVSH", "HadGEM_PP",
             "MODIS_L2", "MODIS_L3", "NCAR_NetCDF_RAF", "NetCDF_Gridded", "cis"}
AggKernels == {"sum", "mean", "min", "max", "moments", "stddev"}
BadNames == {"bogus", "Bogus", "CIS", "x1", "cis2", "ci", "Mean", "mean2", "mea", "cis=x", "mean=x", "[cis]", "mean[]", "(cis)"}
Colours == {"red", "blue", "grey", "black"}
PlotTypes == {"contour", "contourf", "heatmap", "line", "scatter", "scatter2d", "comparativescatter", "histogram",
              "histogram2d", "taylor"}
Lower(s) == CASE s = "Red" -> "red" [] s = "BLUE" -> "blue" [] s = "Grey" -> "grey" [] OTHER -> s

(* the options of each kind of group, by kind of value *)
Kind(g, k) ==
    CASE g \in {"basic", "eval", "agg", "sample", "plot"} /\ k = "product" -> "product"
      [] g = "agg" /\ k = "kernel" -> "kernel"
      [] g = "sample" /\ k = "variable" -> "raw"
      [] g = "sample" /\ k = "collocator" -> "colloc"
      [] g = "sample" /\ k \in {"constraint", "kernel"} -> "method"
      [] g = "plot" /\ k \in {"color", "edgecolor"} -> "colour"
      [] g = "plot" /\ k \in {"itemstyle", "label", "cmap", "cbarorient", "cbarlabel"} -> "raw"
      [] g = "plot" /\ k \in {"itemwidth", "alpha", "vmin", "vmax", "vstep", "cbarscale"} -> "num"
      [] g = "plot" /\ k \in {"contnlevels", "contwidth"} -> "int"
      [] g = "plot" /\ k = "contlevels" -> "list"
      [] g = "plot" /\ k \in {"contlabel", "colourbar"} -> "bool"
      [] g = "plot" /\ k = "type" -> "type"
      [] OTHER -> "none"
NumList(v) == Commas(SubSeq(v, 2, Len(v) - 1))
IsList(v) == Len(v) >= 3 /\ Ch(v, 1) = "[" /\ Ch(v, Len(v)) = "]" /\ \A i \in 1..Len(NumList(v)) : IsNum(NumList(v)[i])

(* what a value must do: "ok" taken as written, "bad" refused, "any" left open *)
Status(kind, v) ==
    CASE v = "" -> "any"
      [] kind = "raw" -> "ok"
      [] kind = "product" -> IF v \in Products THEN "ok" ELSE "bad"
      [] kind = "kernel" -> IF v \in AggKernels THEN "ok" ELSE IF v \in BadNames \/ v \in Products THEN "bad" ELSE "any"
      [] kind = "colloc" -> IF MBad(v) THEN "bad" ELSE IF MAny(v) THEN "any" ELSE IF FlagBad(v) THEN "bad" ELSE "ok"
      [] kind = "method" -> IF MBad(v) THEN "bad" ELSE IF MAny(v) THEN "any" ELSE "ok"
      [] kind = "colour" -> IF Lower(v) \in Colours THEN "ok" ELSE IF v \in {"nocolour", "bogus"} THEN "bad" ELSE "any"
      [] kind = "num" -> IF IsNum(v) THEN "ok" ELSE IF NotNum(v) THEN "bad" ELSE "any"
      [] kind = "int" -> IF IsInt(v) THEN "ok" ELSE IF IsNum(v) \/ NotNum(v) THEN "bad" ELSE "any"
      [] kind = "list" -> IF IsList(v) THEN "ok" ELSE IF IsNum(v) \/ NotNum(SubSeq(v, 2, Len(v) - 1)) THEN "bad" ELSE "any"
      [] kind = "bool" -> IF v \in {"true", "false", "True", "False", "TRUE"} THEN "ok" ELSE "bad"
      [] kind = "type" -> IF v \in PlotTypes THEN "ok" ELSE "bad"
      [] OTHER -> "bad"

(* ------------------------------------------------------------- groups *)
Must(g) == IF g \in {"sample", "infofile"} THEN 1 ELSE 2       \* words that must be there
OptText(g, ws) == IF Len(ws) > Must(g) THEN ws[Must(g) + 1] ELSE ""
FileText(g, ws) == ws[Must(g)]
VarText(g, ws) == IF Must(g) = 1 THEN "" ELSE ws[1]
(* an option without "=" is only allowed where there is a single option to choose from *)
Opt(g, o) == IF g \in {"basic", "eval"} /\ ~HasKey(o) THEN "product=" \o o ELSE o
Opts(g, ws) == LET p == Pieces(OptText(g, ws), ",")
               IN [i \in 1..Len(NonBlank(p)) |-> Opt(g, NonBlank(p)[i])]
VarList(g, ws) == NonBlank(Commas(VarText(g, ws)))

Files == {"a.nc", "b.nc", "c:d.nc", "e", "x f.nc"}
FileList(g, ws) == Commas(FileText(g, ws))
RECURSIVE Unique(_)
Unique(s) == IF s = <<>> THEN <<>>
             ELSE LET r == Unique(SubSeq(s, 1, Len(s) - 1))
                  IN IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

Alias(v) == Split(v, "=", 1, "", <<>>)
AliasBad(v) == Len(Alias(v)) > 2 \/ \E i \in 1..Len(Alias(v)) : Alias(v)[i] = ""

BadGroup(g, ws) ==
    \/ Len(ws) < Must(g) \/ Len(ws) > Must(g) + 1
    \/ g = "infofile" /\ Len(ws) # 1
    \/ FileText(g, ws) = ""
    \/ \E i \in 1..Len(FileList(g, ws)) : FileList(g, ws)[i] # "" /\ FileList(g, ws)[i] \notin Files
    \/ Must(g) = 2 /\ (IF g = "plot" THEN VarText(g, ws) = "" ELSE Len(VarList(g, ws)) = 0)
    \/ g = "eval" /\ \E i \in 1..Len(VarList(g, ws)) : AliasBad(VarList(g, ws)[i])
    \/ \E i \in 1..Len(Opts(g, ws)) : LET o == Opts(g, ws)[i] IN
          ~HasKey(o) \/ Status(Kind(g, KeyOf(o)), ValOf(o)) = "bad" \/ Kind(g, KeyOf(o)) = "none"
    \/ \E i, j \in 1..Len(Opts(g, ws)) : LET a == Opts(g, ws)[i] b == Opts(g, ws)[j]
                                         IN i < j /\ HasKey(a) /\ HasKey(b) /\ KeyOf(a) = KeyOf(b)
OpenGroup(g, ws) ==                     \* not determined by the documentation
    \/ \E i \in 1..Len(FileList(g, ws)) : FileList(g, ws)[i] = ""
    \/ Must(g) = 2 /\ \E i \in 1..Len(Commas(VarText(g, ws))) : Commas(VarText(g, ws))[i] = ""
    \/ Len(ws) > Must(g) /\ \E i \in 1..Len(Pieces(OptText(g, ws), ",")) : Pieces(OptText(g, ws), ",")[i] = ""
    \/ Unclosed(OptText(g, ws))
    \/ \E i \in 1..Len(Opts(g, ws)) : LET o == Opts(g, ws)[i] IN HasKey(o) /\ Status(Kind(g, KeyOf(o)), ValOf(o)) = "any"

(* "bad": must be refused; "ok": must be understood; "any": may be refused, but if not it means what is written *)
GroupStatus(g, s) == LET ws == Words(s) IN
    IF Len(ws) < Must(g) \/ Len(ws) > Must(g) + 1 THEN "bad"
    ELSE IF BadGroup(g, ws) THEN "bad" ELSE IF OpenGroup(g, ws) THEN "any" ELSE "ok"
======================================================================

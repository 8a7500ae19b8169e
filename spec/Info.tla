-------------------------------- MODULE Info --------------------------------
(* What a file says it holds: the names of the variables which can be read,   *)
(* and the summary which is printed of one.                                   *)
EXTENDS Calendar
\* a variable is [path: its groups and its name, dims: the names of its dimensions, values]
\* a file is a sequence of variables; valid is [any: all dimensions will do, names: those which will]
Fits(v, valid) == valid.any \/ ToSet(v.dims) \subseteq ToSet(valid.names)
Listed(files, valid) == UNION {{v.path : v \in {w \in ToSet(files[k]) : Fits(w, valid)}} : k \in 1..Len(files)}
Holds(file, path) == \E k \in 1..Len(file) : file[k].path = path
In(file, path) == file[CHOOSE k \in 1..Len(file) : file[k].path = path]
RECURSIVE Joined(_, _)
Joined(files, path) == IF files = <<>> THEN <<>> ELSE In(Head(files), path).values \o Joined(Tail(files), path)
\* ---- grids: a coordinate is [dim, n: how many points (0 when there is no coordinate), units] ----
TimeUnits == {"days since 2000-01-01", "hours since 1970-01-01 00:00:00", "hours", "s"}
HeightUnits == {"m", "km", "hPa", "Pa", "nm", "mbar", "micron"}
AngleUnits == {"degrees", "degrees_north", "degrees_east", "radian", "1", "percent"}
Placed(c) == c.n <= 1 \/ c.units \in TimeUnits \cup HeightUnits \cup AngleUnits
GridListed(files) == UNION {{v.name : v \in {w \in ToSet(files[k].vars) : \A c \in ToSet(files[k].coords) : c.dim \in ToSet(w.dims) => Placed(c)}} : k \in 1..Len(files)}
\* ---- the summary ----
Missing(x) == x = MASKED
Present(vs) == SelectSeq(vs, LAMBDA x : x # MASKED)
Span(vs) == LET s == ToSet(Present(vs)) IN IF s = {} THEN <<>> ELSE <<MinSet(s), MaxSet(s)>>
\* an eighth of a day after 1600-01-01 as a date
EighthDate(x) == Fields(<<x \div 8, (x % 8) * (Day \div 8)>>)
=============================================================================

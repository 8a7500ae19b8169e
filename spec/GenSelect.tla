------------------------------ MODULE GenSelect -----------------------------
(* Lists of elements in every combination over a few trees of files, and      *)
(* every combination of names and patterns over a few sets of variables.      *)
EXTENDS Select, Json, IOUtils
Quick == IOEnv.VERIF_TIER = "quick"
\* names
N(s) == CASE s = "a" -> <<97>> [] s = "b" -> <<98>> [] s = "ab" -> <<97, 98>> [] s = "a1" -> <<97, 49>> [] s = "a2" -> <<97, 50>> [] s = "B" -> <<66>>
          [] s = "d" -> <<100>> [] s = ".a" -> <<46, 97>> [] s = "*" -> <<42>> [] s = "a*" -> <<97, 42>> [] s = "?" -> <<63>> [] s = "a?" -> <<97, 63>> [] s = "*1" -> <<42, 49>>
          [] s = "[ab]" -> <<91, 97, 98, 93>> [] s = "a[0-1]" -> <<97, 91, 48, 45, 49, 93>> [] s = "[!a]*" -> <<91, 33, 97, 93, 42>> [] s = ".*" -> <<46, 42>>
          [] s = "z*" -> <<122, 42>> [] s = "z" -> <<122>> [] s = "a[" -> <<97, 91>> [] s = "b}" -> <<98, 125>> [] s = "a-1" -> <<97, 45, 49>> [] s = "" -> <<>>
          [] s = "latitude" -> <<108, 97, 116, 105, 116, 117, 100, 101>> [] s = "longitude" -> <<108, 111, 110, 103, 105, 116, 117, 100, 101>> [] s = "time" -> <<116, 105, 109, 101>>
P(ss) == [k \in 1..Len(ss) |-> N(ss[k])]
Trees == <<[files |-> <<P(<<"a">>), P(<<"ab">>), P(<<"d", "a">>), P(<<"d", "b">>), P(<<"B">>)>>, dirs |-> <<P(<<"d">>)>>],
           [files |-> <<P(<<"a2">>), P(<<"a1">>), P(<<"a", "a1">>), P(<<"a", ".a">>), P(<<".a">>), P(<<"a-1">>)>>, dirs |-> <<P(<<"a">>), P(<<"d">>)>>],
           [files |-> <<P(<<"a[">>), P(<<"b}">>), P(<<"d", "a1">>), P(<<"d", "d", "a">>), P(<<"a", "a1">>)>>, dirs |-> <<P(<<"d">>), P(<<"d", "d">>), P(<<"a">>)>>]>>
Tree(n) == LET t == Trees[n] IN [files |-> t.files, dirs |-> t.dirs, content |-> [k \in 1..Len(t.files) |-> [j \in 1..(1 + (k % 3)) |-> (10 * k) + j]]]
Paths == {<<"a">>, <<"ab">>, <<"d">>, <<"*">>, <<"a*">>, <<"a?">>, <<"d", "a">>, <<"d", "*">>, <<"*", "a1">>, <<"a[0-1]">>, <<"[!a]*">>, <<".*">>, <<"z*">>, <<"z">>, <<"a[">>, <<"b}">>,
          <<"a", "a1">>, <<"a-1">>, <<"B">>, <<>>, <<"*", "*">>, <<"d", "d", "?">>}
Els == {[path |-> P(p), slash |-> s, dot |-> d] : p \in Paths, s \in BOOLEAN, d \in BOOLEAN}
One == SetToSeq(Els)
Pairs == [n \in 1..(IF Quick THEN 600 ELSE 6000) |-> LET a == 1 + ((n * 17) % Len(One))  b == 1 + ((n * 5 + (n \div 37)) % Len(One)) IN <<One[a], One[b]>>]
Lists == [n \in 1..Len(One) |-> <<One[n]>>] \o Pairs
Forms == <<"comma", "list">>
FileCase(n) == [kind |-> "files", t |-> Tree(1 + (n % 3)), els |-> Lists[n], form |-> Forms[1 + ((n \div 3) % 2)], read |-> (n % 4) = 0]
\* ---- variables ----
VarSets == <<<<"a", "ab", "a1">>, <<"b", "a1", "a2">>, <<"a">>, <<"ab", "B", "b">>>>
Coords == <<"latitude", "longitude", "time">>
Specs == <<"a", "ab", "b", "a*", "?", "a?", "*1", "[ab]", "a[0-1]", "[!a]*", "z*", "z", "*", "time">>
Aliases == <<"", "d", "z", "same">>
VarCase(n) ==
  LET vs == VarSets[1 + (n % 4)]
      m == 1 + ((n \div 4) % 3)
      spec(k) == Specs[1 + ((n \div 3 + (k * (5 + (n % 7)))) % Len(Specs))]
      al(k) == Aliases[1 + ((n \div 5 + k) % 4)]
      with == n % 3
  IN [kind |-> "vars", listed |-> P(vs) \o P(Coords), there |-> P(vs) \o P(Coords), specs |-> [k \in 1..m |-> N(spec(k))],
      aliases |-> IF with = 0 THEN <<>> ELSE [k \in 1..m |-> IF with = 1 \/ al(k) = "same" \/ al(k) = "" THEN N(spec(k)) ELSE N(al(k))],
      mode |-> IF n % 5 = 0 THEN "real" ELSE "stub"]
NV == IF Quick THEN 500 ELSE 5000
=============================================================================

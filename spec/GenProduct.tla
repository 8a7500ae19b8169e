----------------------------- MODULE GenProduct ----------------------------
(* Every documented kind of file name with every content, without plugins and *)
(* with up to three of them.                                                  *)
EXTENDS ProductTable, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
At(s, n) == s[1 + (n % Len(s))]
Query(f, c, p, d) == [name |-> f, content |-> c, product |-> p, dir |-> d, more |-> <<>>]
BuiltinNames == SetToSeq({p.name : p \in Builtin})
\* without plugins
NB == Len(FileNames)
BuiltCase(n) == [plugins |-> <<>>, kernels |-> <<>>, home |-> At(<<"none", "missing", "set">>, n), asks |-> <<>>,
                 queries |-> [k \in 1..6 |-> Query(At(FileNames, (6 * n) + k), At(Contents, n + (k * 5) + (n \div 12)), <<>>, At(<<"", "d", "x.nc", "">>, n + k))]]
Priority == <<5, 10, 15, 20, 30, 100, 150, 0>>
Sig(n) == IF n % 3 = 0 THEN <<<<At(Patterns, n \div 2)>>>>
          ELSE IF n % 3 = 1 THEN <<<<At(Patterns, n \div 3), At(Patterns, (n \div 5) + 7)>>>>
          ELSE <<<<At(Patterns, n \div 7)>>, <<At(Patterns, n + 3)>>>>
Rej(n) == At(<<<<>>, <<"plain">>, <<"cis", "text">>, <<>>, Contents, <<"gassp", "cf", "plain">>>>, n)
IsAbs(n) == n \in {7, 8, 9, 10}
Plug(n, k) == LET id == 1 + ((n + (k * (3 + (n % 2)))) % (Len(PluginNames) - 1)) IN
              [name |-> PluginNames[id], prio |-> At(Priority, (n \div 3) + (k * 5)), sigs |-> Sig((n * 3) + k), rejects |-> Rej((n \div 2) + k), abstract |-> IsAbs(id),
               parent |-> IF k = 2 /\ n % 4 = 0 THEN PluginNames[1 + ((n + 3 + (n % 2)) % (Len(PluginNames) - 1))]
                          ELSE IF n % 9 = k THEN At(<<P_NetCDF_Gridded.name, P_cis.name, P_Caliop_L2.name, P_abstract_Caliop.name>>, n) ELSE <<>>,
               inherit |-> (n \div 4) % 3 = 0, file |-> 1 + ((n + k) % 3), style |-> (n + k) % 4]
Distinct(ps) == Cardinality({ps[k].name : k \in 1..Len(ps)}) = Len(ps)
PlugCase(n) ==
  LET m == 1 + (n % 3)
      ps == [k \in 1..m |-> Plug(n, k)]
      ks == IF n % 5 = 0 THEN <<At(KernelNames, n)>> ELSE <<>>
      pr(k) == IF (n + k) % 6 = 0 THEN At(PluginNames, n + k) ELSE IF (n + k) % 11 = 0 THEN At(BuiltinNames, n) ELSE <<>>
  IN [plugins |-> IF Distinct(ps) THEN ps ELSE SubSeq(ps, 1, 1), kernels |-> ks, home |-> IF n % 17 = 0 THEN "none" ELSE "set", asks |-> IF n % 5 \in {0, 1} THEN <<At(KernelNames, n), At(PluginNames, n)>> ELSE <<>>,
      queries |-> [k \in 1..6 |-> Query(At(FileNames, NB - 1 - ((n + (k * 7)) % (IF k % 2 = 0 THEN 11 ELSE NB))), At(Contents, (n \div 3) + (k * 5)), pr(k), At(<<"", "", "d">>, n + k))]]
NP == IF Quick THEN 300 ELSE 3000
NN == IF Quick THEN 36 ELSE 150
Lone(c) == IF Len(c.plugins) = 1 THEN [c EXCEPT !.plugins[1].parent = IF @ \in {PluginNames[k] : k \in 1..Len(PluginNames)} THEN <<>> ELSE @] ELSE c
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..(NN + NP) |-> IF n <= NN THEN BuiltCase(n) ELSE Lone(PlugCase(n - NN))])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================

------------------------------- MODULE MCRegrid -----------------------------
(* The bookkeeping of collocating onto a grid, as the code does it: walk over *)
(* the dimensions of the data, noting those the sample has too and the rest,  *)
(* sort the former as in the sample, interpolate (which keeps the order of    *)
(* the data), move the dimensions of the result to the wanted order and lay   *)
(* the mask of the sample over it, each element repeated over the rest.       *)
EXTENDS Grid
CONSTANTS Names, MaxDims
VARIABLES data, sample, smask, pc, k, shared, rest, dims, mask
vars == <<data, sample, smask, pc, k, shared, rest, dims, mask>>
Size(n) == IF n = "a" THEN 2 ELSE IF n = "b" THEN 3 ELSE IF n = "c" THEN 1 ELSE 2
Seqs == {s \in UNION {[1..n -> Names] : n \in 1..MaxDims} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
Sizes(s) == [i \in 1..Len(s) |-> Size(s[i])]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Init == /\ data \in Seqs /\ sample \in {s \in Seqs : \E i \in 1..Len(s) : Has(data, s[i])}
        /\ smask \in {m \in SUBSET (1..Prod(Sizes(sample))) : Cardinality(m) <= 1}
        /\ pc = "walk" /\ k = 1 /\ shared = <<>> /\ rest = <<>> /\ dims = <<>> /\ mask = {}
Keep == UNCHANGED <<data, sample, smask>>
Walk == /\ pc = "walk" /\ Keep /\ UNCHANGED <<dims, mask>>
        /\ IF k > Len(data) THEN pc' = "sort" /\ UNCHANGED <<k, shared, rest>>
           ELSE /\ k' = k + 1 /\ UNCHANGED pc
                /\ IF Has(sample, data[k]) THEN shared' = Append(shared, data[k]) /\ UNCHANGED rest
                   ELSE rest' = Append(rest, data[k]) /\ UNCHANGED shared
Sort == /\ pc = "sort" /\ pc' = "interpolate" /\ Keep /\ UNCHANGED <<k, rest, dims, mask>>
        /\ shared' = SortSeq(shared, LAMBDA x, y : PosOf(sample, x) < PosOf(sample, y))
Interpolate == /\ pc = "interpolate" /\ pc' = "transpose" /\ Keep /\ UNCHANGED <<k, shared, rest, mask>>
               /\ dims' = data
Transpose == /\ pc = "transpose" /\ pc' = "mask" /\ Keep /\ UNCHANGED <<k, shared, rest, mask>>
             /\ LET want == shared \o rest
                    map == [i \in 1..Len(want) |-> PosOf(dims, want[i])]
                IN dims' = [i \in 1..Len(map) |-> dims[map[i]]]
Mask == /\ pc = "mask" /\ pc' = "done" /\ Keep /\ UNCHANGED <<k, shared, rest, dims>>
        /\ LET times == Prod(Sizes(rest)) IN
           mask' = IF Len(shared) < Len(sample) THEN {}
                   ELSE {p \in 1..Prod(Sizes(dims)) : ((p - 1) \div times) + 1 \in smask}
Next == Walk \/ Sort \/ Interpolate \/ Transpose \/ Mask
Spec == Init /\ [][Next]_vars
Ordered == pc = "done" => dims = SelectSeq(sample, LAMBDA x : Has(data, x)) \o SelectSeq(data, LAMBDA x : ~Has(sample, x))
\* exactly the cells of the masked sample points are masked, when each belongs to one
Masked == pc = "done" /\ (\A i \in 1..Len(sample) : Has(data, sample[i])) =>
    \A p \in 1..Prod(Sizes(dims)) : p \in mask <=> Flat(Sizes(sample), SubSeq(Unflat(Sizes(dims), p), 1, Len(sample))) \in smask
=============================================================================

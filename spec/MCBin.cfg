CONSTANTS NP = 2 Hi = 4 TurnC = 4 Offs = 3
SPECIFICATION Spec
INVARIANT Correct Conserved

CONSTANTS NP = 3 Hi = 4 TurnC = 4 Offs = 2
SPECIFICATION Spec
INVARIANT Correct Conserved

CONSTANTS Priorities = {10, 20}
 Most = 3
SPECIFICATION Spec
INVARIANT TypeOK FoundIsDefined Highest NeverAbstract NobodyMeansNone Explicit CaseBlind
CHECK_DEADLOCK FALSE

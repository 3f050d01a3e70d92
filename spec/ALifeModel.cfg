SPECIFICATION MSpec
CONSTANTS
 DataSets = {1, 2}
 Pars = {0, 1}
 MaxLen = 4
INVARIANTS ModelIffLastTrainingSucceeded ModelIsOfLastData ParametersAreLastAssigned QueriesInvisible

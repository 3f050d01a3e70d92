SPECIFICATION MSpec
CONSTANTS
 DataSets = {1, 2, 3}
 Pars = {0, 1}
 MaxLen = 4
INVARIANTS ConfiguredByFirstData ParametersAreLastAssigned RowsOwn

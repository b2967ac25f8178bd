INIT Init
NEXT Next
INVARIANTS NoLoss Spelled Listed
CHECK_DEADLOCK FALSE

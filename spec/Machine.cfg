INIT Init
NEXT Next
INVARIANTS Faithful Truthful Lasting
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS Framing Counts Refused
CHECK_DEADLOCK FALSE

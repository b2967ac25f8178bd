INIT Init
NEXT Next
INVARIANTS OneName Pairs SubSegments Dispatch
CHECK_DEADLOCK FALSE

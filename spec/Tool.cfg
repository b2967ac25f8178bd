INIT Init
NEXT Next
INVARIANTS Understood Unambiguous Rendered Told
CHECK_DEADLOCK FALSE

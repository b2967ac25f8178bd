INIT Init
NEXT Next
INVARIANTS Foreignness KeptWhole Aside Back Commands
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS Total Sound Detected KeepsHeader KeepsCommand KeepsDescriptors
CHECK_DEADLOCK FALSE

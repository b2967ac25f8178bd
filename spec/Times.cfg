INIT Init
NEXT Next
INVARIANTS RoundTrip Largest Grows Smallest Calendar Zones Sums
CHECK_DEADLOCK FALSE

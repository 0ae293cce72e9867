INIT CalInit
NEXT CalNext
CONSTANT Days = 50000
CHECK_DEADLOCK FALSE
INVARIANT ClosedForms

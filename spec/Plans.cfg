INIT Init
NEXT Next
INVARIANT TypeOK

INIT Init
NEXT Next
INVARIANTS Report Inv

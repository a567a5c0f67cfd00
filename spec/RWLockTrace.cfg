INIT Init
NEXT Next
INVARIANTS Report Exclusive

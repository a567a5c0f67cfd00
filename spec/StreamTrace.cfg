INIT Init
NEXT Next
INVARIANTS Report TypeInv

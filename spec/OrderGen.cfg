INIT Init
NEXT Next
INVARIANT Reflexive
INVARIANT Mirrored
INVARIANT Transitive
INVARIANT Emit
CHECK_DEADLOCK FALSE

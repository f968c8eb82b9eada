CONSTANT Allowed <- IOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

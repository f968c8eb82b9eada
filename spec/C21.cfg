CONSTANT Allowed <- FixedOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- IndexOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

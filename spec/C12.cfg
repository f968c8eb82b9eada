CONSTANT Allowed <- BitsOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

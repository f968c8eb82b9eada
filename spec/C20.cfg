CONSTANT Allowed <- CastOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- PrimOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- FloatOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- ReduceOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

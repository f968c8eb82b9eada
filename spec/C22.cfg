CONSTANT Allowed <- RatOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

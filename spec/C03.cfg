CONSTANT Allowed <- HBOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

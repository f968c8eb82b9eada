CONSTANT Allowed <- AllocOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

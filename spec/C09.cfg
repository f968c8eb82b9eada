CONSTANT Allowed <- CmpOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

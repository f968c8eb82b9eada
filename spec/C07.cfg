CONSTANT Allowed <- ArithOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- UArithOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

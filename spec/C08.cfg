CONSTANT Allowed <- DivRemOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Allowed <- ConvOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

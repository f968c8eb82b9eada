CONSTANT Allowed <- CompoundOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

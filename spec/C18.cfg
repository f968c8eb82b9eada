CONSTANT Allowed <- BitVecOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

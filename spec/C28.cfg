CONSTANT Allowed <- UniformOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

CONSTANT Chunk = 32
CONSTANT Allowed <- LinearOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

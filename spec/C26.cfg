CONSTANT Allowed <- IterCase
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

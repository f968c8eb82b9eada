CONSTANT Allowed <- MachineOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

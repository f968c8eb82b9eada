CONSTANT Allowed <- InPlaceOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

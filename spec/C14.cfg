CONSTANT Allowed <- URestOk
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE

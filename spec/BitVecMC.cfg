CONSTANTS W = 2  MaxLen = 3
INIT Init
NEXT Next
INVARIANTS TypeOk SetOnlyThat NeverShrinks ReadsKeep Packs
CHECK_DEADLOCK FALSE

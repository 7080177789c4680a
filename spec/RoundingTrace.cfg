SPECIFICATION TSpec
CONSTANT MaxLive = 8
INVARIANTS TypeOK Restored Bottom Upward
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS MaxLive = 4 Depth = 16 Few = FALSE
CHECK_DEADLOCK FALSE

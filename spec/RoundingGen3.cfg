SPECIFICATION GSpec
CONSTANTS MaxLive = 3 Depth = 3 Few = TRUE
VIEW View
CHECK_DEADLOCK FALSE

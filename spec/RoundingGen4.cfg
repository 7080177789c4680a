SPECIFICATION GSpec
CONSTANTS MaxLive = 3 Depth = 4 Few = TRUE
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS Regs = {1, 2, 3, 4} F = "m:4:-3:2" Depth = 50
CHECK_DEADLOCK FALSE

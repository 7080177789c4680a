SPECIFICATION Spec
CONSTANTS Regs = {1, 2} F = "m:1:-1:0" Bits = 3
INVARIANT Sound
CONSTRAINT Small
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Regs = {1, 2} F = "m:1:-1:1" Bits = 2
INVARIANT Sound
CONSTRAINT Small
CHECK_DEADLOCK FALSE

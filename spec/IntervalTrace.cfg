SPECIFICATION TSpec
CONSTANT Regs = {1, 2, 3, 4}
INVARIANT Sound
CHECK_DEADLOCK FALSE

SPECIFICATION RSpec
CONSTANT MaxLive = 4
INVARIANTS TypeOK Restored Bottom Upward
PROPERTY Invisible
CHECK_DEADLOCK FALSE

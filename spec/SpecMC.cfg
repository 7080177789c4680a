SPECIFICATION Spec
INVARIANT Binary Hulls Unary Parts Order Rounded Isotone Loose Pi
CHECK_DEADLOCK FALSE
CONSTANT F = "m:2:-1:1"

SPECIFICATION Spec
INVARIANT Binary Hulls Unary Parts Order Rounded Isotone Loose Pi
CHECK_DEADLOCK FALSE
CONSTANT F = "m:1:-1:1"

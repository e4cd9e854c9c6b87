INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Layouts <- DefaultLayouts
INVARIANTS Unary Binary

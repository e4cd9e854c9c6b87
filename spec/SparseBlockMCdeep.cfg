INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Layouts <- DeepLayouts
INVARIANTS Unary Binary

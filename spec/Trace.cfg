SPECIFICATION Spec
INVARIANT StateOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Right Answered
PROPERTY Ends
CHECK_DEADLOCK TRUE

SPECIFICATION Spec
INVARIANTS Once Ordered TermLast OneAtATime Complete SameOrder Terminated
CHECK_DEADLOCK TRUE

SPECIFICATION Spec
INVARIANTS Refines Follows OneOwner
PROPERTIES CallsReturn EventuallyRun WorkerLeaves
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS C01Contract C04Payload C05Silence C05IsSub C06Teardown C13One Definition
CHECK_DEADLOCK FALSE

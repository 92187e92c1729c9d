SPECIFICATION Spec
INVARIANTS OneTerminal ErrorArrives NotAfter Clean Conserve

SPECIFICATION Spec
INVARIANTS Shape Why Fresh Silent NoTimer Fires Whole
PROPERTY Ends

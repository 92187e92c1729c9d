SPECIFICATION Spec
INVARIANTS Prefix OnWorker Silent Whole Cut Empty
PROPERTY Ends

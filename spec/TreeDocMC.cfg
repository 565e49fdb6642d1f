SPECIFICATION Spec
INVARIANTS RoundTrip Partial
PROPERTY Ends
CHECK_DEADLOCK FALSE

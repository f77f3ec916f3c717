SPECIFICATION Spec
CONSTANT
 Fields <- FieldsC
 Class <- ClassC
 MaxVal = 2
 Fresh = TRUE
INVARIANT Roundtrip
CHECK_DEADLOCK FALSE

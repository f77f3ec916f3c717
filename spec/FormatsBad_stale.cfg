SPECIFICATION Spec
CONSTANT
 Fields <- FieldsC
 Class <- ClassC
 MaxVal = 2
 Fresh = FALSE
INVARIANT Roundtrip
CHECK_DEADLOCK FALSE

------------------------------ MODULE FormatsMC ------------------------------
EXTENDS Formats
FieldsC == {"o1", "o2", "c1", "c2", "h1"}
ClassC(f) == CASE f \in {"o1", "o2"} -> "own" [] f \in {"c1", "c2"} -> "com" [] OTHER -> "h5"
=============================================================================

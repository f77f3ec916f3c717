------------------------------- MODULE RfCalcMC -------------------------------
EXTENDS RfCalc
RecordsC == <<3, 2, 1, 4>>
=============================================================================

------------------------------ MODULE ProfileMC ------------------------------
EXTENDS Profile
BinsC == <<-1, 1, 5>>
AlongC == {-2, 0, 2, 4, 6}
OffC == {-2, 0, 2, 1}
=============================================================================

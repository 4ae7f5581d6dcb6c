-------------------------------- MODULE MC_Arch ---------------------------------
EXTENDS Arch
C1 == <<1>>
C2 == <<2, 1>>
C3 == <<1, 3, 2>>
==============================================================================

--------------------------------- MODULE MC_Igm ----------------------------------
EXTENDS Igm
LinesC == <<12156700, 10257200>>
==============================================================================

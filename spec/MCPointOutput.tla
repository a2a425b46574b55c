--------------------------- MODULE MCPointOutput ----------------------------
EXTENDS PointOutput
CONSTANTS MaxN, WMax
MCInit == PInit(1..MaxN, WMax)
MCSpec == MCInit /\ [][PNext]_pvars
=============================================================================

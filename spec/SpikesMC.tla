------------------------------ MODULE SpikesMC ------------------------------
EXTENDS Spikes
MCSources == {<<1>>, <<2, 1>>, <<1, -1>>, <<1, 2, -1>>}
MCVals == -2..2
=============================================================================

---------------------------- MODULE MCSIFTheory ----------------------------
EXTENDS SIFTheory
D0 == {<<0, 1, 1, 1>>, <<0, 1, 2, 1>>, <<1, 1, 1, 1>>, <<2, 1, 1, 1>>, <<1, 1, 1, 2>>}
D1 == {<<1, 1, 1, 1>>}
D2 == {<<0, 1, 1, 1>>, <<0, 1, 2, 2>>, <<1, 1, 1, 1>>, <<2, 1, 1, 1>>, <<1, 2, 1, 1>>, <<1, 1, 2, 1>>, <<1, 1, 1, 2>>}
=============================================================================

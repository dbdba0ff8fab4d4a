-------------------------------- MODULE MCPrec --------------------------------
EXTENDS Prec
Small == {10, 53, 54}
Wide == {2, 15, 53, 54, 77}
=============================================================================

------------------------------- MODULE MCMft -------------------------------
EXTENDS Mft
\* record : cluster as in 1K records on 512, 1K, 2K, 4K clusters and 2K, 4K records on small clusters (units of 512 bytes)
MCRatios == {<<2, 1>>, <<2, 2>>, <<2, 4>>, <<2, 8>>, <<4, 1>>, <<8, 1>>, <<8, 4>>, <<4, 2>>}
=============================================================================

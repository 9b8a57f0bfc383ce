------------------------------ MODULE MCAttrs ------------------------------
EXTENDS Attrs
k(t, nm, res, ns, par, x) == [t |-> t, nm |-> nm, res |-> res, ns |-> ns, par |-> par, x |-> x]
\* C07: a bit of everything; x distinguishes kinds that are otherwise alike (x = 1: no runs, x = 2: large index).
KindsIter == << k(16, 0, TRUE, 0, 0, 0), k(48, 0, TRUE, 1, 5, 0), k(128, 0, TRUE, 0, 0, 0), k(128, 0, FALSE, 0, 0, 0),
                k(128, 1, FALSE, 0, 0, 0), k(128, 3, FALSE, 0, 0, 1), k(160, 7, FALSE, 0, 0, 0), k(256, 5, TRUE, 0, 0, 0) >>
KindsDeep == << k(48, 0, TRUE, 1, 5, 0), k(128, 0, FALSE, 0, 0, 0), k(128, 1, FALSE, 0, 0, 0) >>
\* C08: data streams and file names
KindsData == << k(16, 0, TRUE, 0, 0, 0), k(128, 0, TRUE, 0, 0, 0), k(128, 0, FALSE, 0, 0, 0), k(128, 1, TRUE, 0, 0, 0), k(128, 2, TRUE, 0, 0, 0), k(128, 3, FALSE, 0, 0, 0),
                k(128, 5, TRUE, 0, 0, 0), k(144, 1, TRUE, 0, 0, 3), k(192, 0, TRUE, 0, 0, 0), k(256, 1, TRUE, 0, 0, 0) >>
KindsName == << k(16, 0, TRUE, 0, 0, 0), k(48, 0, TRUE, 0, 5, 0), k(48, 0, TRUE, 1, 5, 0), k(48, 0, TRUE, 2, 5, 0), k(48, 0, TRUE, 3, 6, 0), k(48, 0, TRUE, 1, 6, 0), k(48, 0, TRUE, 2, 6, 0),
                k(128, 0, TRUE, 0, 0, 0) >>
KindsVol == << k(16, 0, TRUE, 0, 0, 0), k(48, 0, TRUE, 3, 5, 0), k(80, 0, TRUE, 0, 0, 0), k(96, 0, TRUE, 0, 0, 0), k(112, 0, TRUE, 0, 0, 0), k(128, 0, TRUE, 0, 0, 0) >>
KindsDir == << k(16, 0, TRUE, 0, 0, 0), k(144, 0, TRUE, 0, 0, 3), k(144, 1, TRUE, 0, 0, 3), k(144, 3, TRUE, 0, 0, 4), k(144, 7, TRUE, 0, 0, 3), k(144, 7, TRUE, 0, 0, 4), k(144, 8, TRUE, 0, 0, 3),
               k(160, 0, FALSE, 0, 0, 0), k(160, 3, FALSE, 0, 0, 0), k(160, 7, FALSE, 0, 0, 0), k(176, 7, TRUE, 0, 0, 0) >>
NoQueries == {}
DataQueries == 0..6
=============================================================================

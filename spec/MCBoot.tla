---- MODULE MCBoot ----
(* Parts of the space of boot sectors: each varies some fields over all their values, the others over a few. *)
EXTENDS Boot
N8(i) == OfInt(i, 8)
MaxN == <<255, 255, 255, 255, 255, 255, 255, 255>>
Good == <<85, 170>>
OneT == {N8(2047)}
OneL == {N8(16)}
Sig1 == {Good}
Sigs == {Good, <<170, 85>>, <<0, 0>>, <<85, 171>>, <<84, 170>>, <<85, 0>>, <<0, 170>>, <<255, 255>>}
\* every sectors-per-cluster byte with many sector sizes
SecAll == {0, 1, 2, 128, 255, 256, 257, 511, 512, 513, 520, 768, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 4608, 5000, 6144, 8191, 8192, 16384, 32767, 32768, 65535}
Bytes256 == 0..255
FrsFew == {246, 244, 1}
FrsThree == {246, 245, 244}
\* every record size byte with every cluster size
SecOk == {512, 1024, 2048, 4096}
SpcOkB == {1, 2, 4, 8, 16, 32, 64, 128, 255, 250, 249, 248, 247, 246, 245, 244}
SecTwo == {512, 4096}
\* products: volume size 2^64 and around, MFT position 2^64 and around
Pow64(n) == [i \in 1..8 |-> IF i = (n \div 8) + 1 THEN Pow2(n % 8) ELSE 0]
Around(n) == {Pow64(n), AddN(Pow64(n), <<1>>, 8), SubN(Pow64(n), <<1>>, 8)}
Totals == {N8(0), N8(1), N8(255), N8(256), MaxN, <<1, 2, 3, 4, 5, 6, 7, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>} \cup UNION {Around(n) : n \in 50..56} \cup Around(63) \cup Around(32)
LcnsAll == {N8(0), N8(1), N8(2), N8(256), MaxN, <<7, 6, 5, 4, 3, 2, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>} \cup UNION {Around(n) : n \in 42..56} \cup Around(31) \cup Around(32) \cup Around(63)
====

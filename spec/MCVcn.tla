---- MODULE MCVcn ----
EXTENDS Vcn
QShapes == {<<1,3>>, <<1,4>>, <<2,4>>, <<2,5>>, <<4,9>>, <<8,16>>, <<8,17>>}
TShapes == QShapes \cup {<<1,1>>, <<1,5>>, <<2,2>>, <<2,7>>, <<4,13>>, <<8,8>>, <<8,25>>}
MCFar == <<"min", "max", "overflow", "overflow-1", "wrap", "neg-wrap", "half">>
====

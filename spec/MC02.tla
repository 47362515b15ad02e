-------------------------------- MODULE MC02 --------------------------------
EXTENDS FFFile
CONSTANT Bytes
WL == { <<>>, << <<97>> >>, << <<228>>, <<>> >> }
WL1 == { << <<97>> >>, << <<228>>, <<>> >> }
WL2 == { << <<97, 98>>, <<8364>>, <<128512>> >> } \cup WL
Next == WriteAll \/ Corrupt(Bytes)
=============================================================================

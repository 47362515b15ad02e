-------------------------------- MODULE MC13 --------------------------------
(* Design check: the selection algorithm returns a correct ranking for every *)
(* score assignment, skip set and k, however ties are broken.                *)
EXTENDS FFRank
=============================================================================

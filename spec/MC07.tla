-------------------------------- MODULE MC07 --------------------------------
(* Design check: hash indices stay below the bound, halving the buckets      *)
(* halves the index, modular arithmetic on limbs agrees with integers.       *)
EXTENDS FFVocab
CONSTANTS MaxLen
VARIABLE c
Grams == UNION {[1..k -> {97, 228, 35486, 128512}] : k \in 0..MaxLen}
Ns == {1, 2, 3, 7, 256, 65535, 65536, 65537, 2000000, 1073741824, 2147483647}
Init == c \in {[g |-> Tup(g)] : g \in Grams}
Next == UNCHANGED c
H == FifuHash(c.g)
F == FtHash(c.g)
FNat == IF F[2] < 32768 THEN F[1] + 65536 * F[2] ELSE -1
Inv ==
  /\ \A e \in 1..63 : /\ U64Less(LowBits(H, e), Pow2U64(e))
                      /\ e < 63 => LowBits(LowBits(H, e + 1), e) = LowBits(H, e)
                      /\ e < 63 => U64Add(Pow2U64(e), Pow2U64(e)) = Pow2U64(e + 1)
  /\ \A n \in Ns : LET r == FtIndex(c.g, U64(n)) IN
        /\ U64Less(r, U64(n))
        /\ FNat >= 0 => U64Nat(r) = FNat % n
  /\ \A n \in {<<0, 32768>>, <<65535, 65535>>, <<1, 32768>>} :
        LET r == Mod2(F, n) IN Less2(r, n) /\ (Less2(F, n) => r = F)
=============================================================================

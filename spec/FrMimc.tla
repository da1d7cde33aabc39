--------------------------------- MODULE FrMimc ---------------------------------
(***************************************************************************)
(* The MiMC permutation over the bn256 scalar field, on its own so that TLC *)
(* can run it with a module override (java/FrOverrides.java).  FrSelfTest    *)
(* checks the override against this definition and against Sponge.tla.      *)
(***************************************************************************)
EXTENDS Fr, HashConstants

FrSBox(x) == LET x2 == FrMul(x, x)
                 x3 == FrMul(x2, x)
             IN  FrMul(FrMul(x3, x3), x)

RECURSIVE FrMimcFrom(_, _, _, _)
FrMimcFrom(s, key, arks, i) ==
    IF i > 91 THEN s
    ELSE FrMimcFrom(FrSBox(FrAdd(FrAdd(s, key), arks[i])), key, arks, i + 1)

FrMimcPerm(s, key, arks) == FrMimcFrom(s, key, arks, 1)

RECURSIVE FrMimcAbsorb(_, _, _)
FrMimcAbsorb(s, msg, i) ==
    IF i > Len(msg) THEN s
    ELSE FrMimcAbsorb(FrAdd(FrAdd(FrMimcPerm(s, msg[i], ArkConst), s), msg[i]), msg, i + 1)

FrMimcHash(msg) == FrMimcAbsorb(FrZero, msg, 1)
================================================================================

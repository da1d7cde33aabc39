---------------------------- MODULE TraceNumeralsFr ----------------------------
EXTENDS TraceNumerals, Fr
\* the order of the scalar field of BN254
FrDigits == <<2,1,8,8,8,2,4,2,8,7,1,8,3,9,2,7,5,2,2,2,2,4,6,4,0,5,7,4,5,2,5,7,2,7,5,0,8,8,5,4,8,3,6,4,4,0,0,4,1,6,0,3,4,
             3,4,3,6,9,8,2,0,4,1,8,6,5,7,5,8,0,8,4,9,5,6,1,7>>
ASSUME Len(FrDigits) = 77 /\ Read(FrDigits, 10) = FrZero
================================================================================

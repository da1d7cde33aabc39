------------------------------ MODULE TraceHashFr ------------------------------
EXTENDS TraceHash, FrMimc
================================================================================

------------------------------ MODULE TraceCircuitFr ------------------------------
EXTENDS TraceCircuit, FrMimc
================================================================================

------------------------------ MODULE TraceUniFr ------------------------------
EXTENDS TraceUni, FrMimc
================================================================================

------------------------------- MODULE TraceGkrFr -------------------------------
EXTENDS TraceGkr, FrMimc
================================================================================

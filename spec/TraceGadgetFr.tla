------------------------------ MODULE TraceGadgetFr ------------------------------
EXTENDS TraceGadget, FrMimc
================================================================================

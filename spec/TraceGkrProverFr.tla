---------------------------- MODULE TraceGkrProverFr ----------------------------
EXTENDS TraceGkrProver, FrMimc
================================================================================

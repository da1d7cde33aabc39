----------------------------- MODULE TraceTablesFr -----------------------------
EXTENDS TraceTables, FrMimc
================================================================================

----------------------------- MODULE TraceSumcheckFr -----------------------------
EXTENDS TraceSumcheck, FrMimc
================================================================================

---------------------------------- MODULE TLC ----------------------------------
\* for tlapm, whose TLC module has no TLCEval
TLCEval(v) == v
================================================================================

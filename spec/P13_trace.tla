------------------------------- MODULE P13_trace -------------------------------
EXTENDS Extraction
================================================================================

------------------------------- MODULE P12_trace -------------------------------
EXTENDS Extraction
================================================================================

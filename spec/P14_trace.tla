------------------------------- MODULE P14_trace -------------------------------
EXTENDS Extraction
================================================================================

---------------------------------- MODULE MC ----------------------------------
(* The abstract machine over the programs and runs of a check *)
EXTENDS CSem
=============================================================================

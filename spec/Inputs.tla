-------------------------------- MODULE Inputs --------------------------------
(* The programs and the recorded runs of a check, as constants.  They are       *)
(* definitions and not CONSTANTS that the configuration substitutes, because    *)
(* TLC evaluates only definitions once.                                         *)
EXTENDS Json, IOUtils, TLC
Progs == JsonDeserialize(IOEnv.CSEM_PROGS)   \* sequence of [nodes |-> <<..>>, top |-> <<..>>]
Runs == JsonDeserialize(IOEnv.CSEM_RUNS)     \* sequence of [p, argv, out, ret, kind, ord]
=============================================================================

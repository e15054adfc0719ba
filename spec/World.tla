------------------------------- MODULE World --------------------------------
(* The names and targets which the harness has, from a file.               *)
EXTENDS Json, IOUtils, TLC, Sequences
LOCAL TheWorld == JsonDeserialize(IOEnv.WORLD)
WorldTgts == TheWorld.targets
WorldNames == TheWorld.names
=============================================================================

------------------------------ MODULE ProofUni ------------------------------
EXTENDS ProofMC
KB3 == << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 0, 0>> >>
KB4 == << <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 0>> >>
=============================================================================

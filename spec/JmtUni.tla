------------------------------- MODULE JmtUni -------------------------------
(* Universes for the bounded models of the versioned tree.                   *)
EXTENDS JmtMC
(* three neighbours, one beside, one apart                                   *)
KJ4 == << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 8, 0>>, <<9, 0, 0>> >>
KJ5 == << <<0, 0, 0, 0>>, <<0, 0, 0, 3>>, <<0, 0, 4, 0>>, <<0, 15, 0, 0>>, <<8, 0, 0, 0>> >>
KJ6 == << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 9>>, <<0, 8, 0>>, <<9, 0, 0>>, <<9, 15, 15>> >>
=============================================================================

------------------------------- MODULE MptUni -------------------------------
(* Universes for the bounded models of the Patricia trie.                    *)
EXTENDS MptMC
KN3 == << <<0, 1>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>> >>
VALS6 == <<2, 2, 2, 40, 40, 40>>
KN4 == << <<>>, <<0, 1>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>> >>
KN5 == << <<>>, <<0, 1>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<0, 2>> >>
KN6 == << <<0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 1>>, <<0, 1, 1, 1>>, <<1, 0>> >>
VALS10 == <<2, 2, 2, 2, 2, 40, 40, 40, 40, 40>>
VALS8 == <<2, 2, 2, 2, 40, 40, 40, 40>>
VALS12 == <<2, 2, 2, 2, 2, 2, 40, 40, 40, 40, 40, 40>>
VALS1 == <<40>>
=============================================================================

JMT = "explicit TLA+ specification of the versioned tree (JmtCore, JmtTrace): recorded histories of the real code validated by TLC"
PMT = "explicit TLA+ specification of the Patricia trie (MptCore, MptTrace): recorded histories of the real code validated by TLC, down to every byte of every stored node"
LIN = "explicit TLA+ specification of an atomic database (MemDbTrace): TLC searches a linearization of recorded concurrent histories of the real code"
NOTE = "Every recorded call result must be one the specification allows; bounded by the generated histories. Trusts TLC, the harness' encoding and hash collision freedom."
CLAIMED = {f"C{i:02d}": (JMT, NOTE) for i in range(1, 13)}
CLAIMED.update({f"C{i}": (PMT, NOTE) for i in range(13, 21)})
CLAIMED["C21"] = (LIN, "Real threads under contention; schedules are whatever the machine produces, so a race with a very narrow window can be missed. Trusts TLC and the order of a sequentially consistent counter.")
CLAIMED["C22"] = ("explicit TLA+ specifications of both trees (JmtMC, MptMC with the step \"written out and read back\"): exported behaviours replayed into the real code over encoded state and compared with the specified results",
                  "All behaviours of small universes (quick: sampled); encodings borsh, bincode, JSON. Trusts TLC, the encoders and hash collision freedom.")
NA = {}

----------------------------- MODULE MC_Member -----------------------------
EXTENDS Member, TLC
KeysUnder(root) == IF root = "A" THEN {"alice"} ELSE {"alice", "bob"}
=============================================================================

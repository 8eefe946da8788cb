------------------------------ MODULE MC_Files ------------------------------
EXTENDS Files
MCOpens(d) == d # <<>> /\ d[1] = 1
MCNothing == <<>>
MCContents == {<<1>>, <<2, 1>>}
MCPerms == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>}
MCContentsQ == {<<1>>}
MCPermsT == {<<TRUE, TRUE>>}
MCPermsQ == {<<TRUE, TRUE>>, <<TRUE, FALSE>>}
=============================================================================

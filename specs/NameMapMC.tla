------------------------------ MODULE NameMapMC ------------------------------
EXTENDS NameMap, Json, CSV, IOUtils
CONSTANTS Depth, Emit
VARIABLE hist
Rec == [last |-> last, maps |-> maps]
MCInit == Init /\ hist = <<Rec>>
MCNext == Next /\ Len(hist) <= Depth /\ hist' = Append(hist, [last |-> last', maps |-> maps'])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == \A m \in DOMAIN maps : Len(maps[m]) <= MaxLen
View == <<maps, Len(names)>>
DNext == Next /\ UNCHANGED hist
DSpec == Init /\ hist = <<>> /\ [][DNext]_<<vars, hist>>
Out == (Emit /\ Len(hist) = Depth + 1) => CSVWrite("%1$s", <<ToJson([h |-> hist])>>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE ChainMC ------------------------------
EXTENDS Chain, Json, CSV, IOUtils
CONSTANTS MaxL, Depth, Emit
VARIABLES hist
Log(op, n, ret) == hist' = IF Emit THEN Append(hist, [op |-> op, n |-> n, ret |-> ret, pos |-> pos']) ELSE <<>>
MCInit == /\ l1 \in 0..MaxL /\ l2 \in -1..MaxL /\ pos = 0
          /\ hist = IF Emit THEN <<[op |-> "open", n |-> l1, ret |-> <<l2>>, pos |-> 0]>> ELSE <<>>
S(t) == IF t < 0 THEN <<-1>> ELSE <<t>>
MCFin == Emit /\ Len(hist) = Depth + 1 /\ UNCHANGED <<l1, l2, pos>> /\ hist' = Append(hist, [op |-> "fin"])
MCStep ==
  /\ (Emit => Len(hist) <= Depth)
  /\ \/ \E n \in 0..(2*MaxL+1) : SeekStart(n, S(n)) /\ Log("start", n, S(n))
     \/ \E d \in -(MaxL+1)..(MaxL+1) : SeekCur(d, S(pos + d)) /\ Log("cur", d, S(pos + d))
     \/ \E d \in -(2*MaxL+1)..1 : SeekEnd(d, S(Total + d)) /\ Log("end", d, S(Total + d))
     \/ \E n \in 0..(MaxL+2) : LET e == IF pos >= Total THEN pos ELSE Min(pos + n, Total) IN ReadN(n, <<pos, e>>) /\ Log("read", n, <<pos, e>>)
MCNext == MCStep \/ MCFin
MCSpec == MCInit /\ [][MCNext]_<<l1, l2, pos, hist>>
Bound == pos <= 3 * MaxL + 3
PosNat == pos >= 0
\* a read never leaves the contents and never moves backwards
ReadInside == [][pos' # pos => pos' >= 0]_<<l1, l2, pos>>
Out == (Emit /\ Len(hist) = Depth + 2) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================

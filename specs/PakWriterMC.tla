----------------------------- MODULE PakWriterMC -----------------------------
EXTENDS PakWriter, Json, CSV, IOUtils
CONSTANTS Vers, BSs, Mps, Rs, Conts, Zs, Depth
VARIABLE hist
MCInit == ver \in Vers /\ bs \in BSs /\ mp \in Mps /\ es = <<>> /\ st = "open" /\ hist = <<>>
MCNext ==
  \/ /\ Len(hist) < Depth
     /\ \E r \in Rs, c \in Conts, z \in Zs :
        LET ret == WriteRet(r, c[2], z) IN Write(r, c[1], c[2], z, ret) /\ hist' = Append(hist, [op |-> "write", name |-> Names[r].n, k |-> c[1], n |-> c[2], z |-> z, ret |-> ret])
  \/ /\ Len(hist) = Depth \/ (Depth <= 2)
     /\ Finish(FinishRet) /\ hist' = Append(hist, [op |-> "finish", ret |-> FinishRet])
MCSpec == MCInit /\ [][MCNext]_<<wvars, hist>>
Case == [ver |-> ver, bs |-> bs, mp |-> mp, ops |-> hist, toks |-> IF st = "done" THEN File ELSE <<>>, contents |-> IF st = "done" THEN Contents ELSE <<>>]
Out == st # "open" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
LayoutOk == st = "done" => WellFormed(File)
MpDef == {"../../../"}
=============================================================================

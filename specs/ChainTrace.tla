----------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TInit == l = 1 /\ l1 = 0 /\ l2 = -1 /\ pos = 0
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ E.op = "open"  /\ l1' = E.n /\ l2' = E.ret[1] /\ pos' = 0
     \/ E.op = "start" /\ SeekStart(E.n, E.ret)
     \/ E.op = "cur"   /\ SeekCur(E.n, E.ret)
     \/ E.op = "end"   /\ SeekEnd(E.n, E.ret)
     \/ E.op = "read"  /\ ReadN(E.n, E.ret)
  /\ E.pos = pos'
TSpec == TInit /\ [][TNext]_<<l1, l2, pos, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

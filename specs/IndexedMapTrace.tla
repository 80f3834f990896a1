--------------------------- MODULE IndexedMapTrace ---------------------------
(* Validates call histories recorded from the real container.               *)
EXTENDS IndexedMap, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Proj(es) == [p \in DOMAIN es |-> <<es[p].i, es[p].k, es[p].v>>]
TInit == Init /\ l = 1
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ E.op = "reset"      /\ ents' = <<>>
     \/ E.op = "insert"     /\ Insert(E.k, E.v, E.ret)
     \/ E.op = "or_insert"  /\ OrInsert(E.k, E.v, E.ret)
     \/ E.op = "mut_key"    /\ MutKey(E.k, E.v, E.ret)
     \/ E.op = "mut_idx"    /\ MutIdx(E.n, E.v, E.ret)
     \/ E.op = "rem_key"    /\ RemKey(E.k, E.ret)
     \/ E.op = "rem_idx"    /\ RemIdx(E.n, E.ret)
     \/ E.op = "ent_remove" /\ EntRemove(E.k, E.ret)
     \/ E.op = "ent_bump"   /\ EntBump(E.k, E.v, E.ret)
     \/ E.op = "bump_all"   /\ BumpAll(E.ret)
     \/ E.op = "clone"      /\ CloneIt(E.ret)
     \/ E.op = "rebuild"    /\ Rebuild(E.ret)
  /\ Proj(ents') = E.st
TSpec == TInit /\ [][TNext]_<<ents, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE PakWriter ------------------------------
(* Streaming writer protocol and the file it must leave behind.              *)
EXTENDS PakLayout, PakNames
VARIABLES ver, bs, mp, es, st         \* st : "open" | "done" | "failed"
wvars == <<ver, bs, mp, es, st>>
Ranks(E) == {E[k].r : k \in DOMAIN E}
Threshold == 32
Zips(n, z) == z /\ n >= Threshold

WriteRet(r, n, z) == IF r \in Ranks(es) THEN "double" ELSE IF Zips(n, z) /\ ver < 3 THEN "config" ELSE "ok"
Write(r, k, n, z, ret) ==
  /\ st = "open" /\ ret = WriteRet(r, n, z)
  /\ es' = IF ret = "ok" THEN Append(es, [r |-> r, name |-> Names[r].n, k |-> k, n |-> n, z |-> Zips(n, z)]) ELSE es
  /\ UNCHANGED <<ver, bs, mp, st>>
FinishRet == IF ver >= 10 THEN "unsupported" ELSE "ok"
Finish(ret) == st = "open" /\ ret = FinishRet /\ st' = (IF ret = "ok" THEN "done" ELSE "failed") /\ UNCHANGED <<ver, bs, mp, es>>

SortPerm(E) == [p \in DOMAIN E |-> CHOOSE k \in DOMAIN E : Cardinality({j \in DOMAIN E : E[j].r < E[k].r}) = p - 1]
File == Classic(ver, es, WriterOpts(bs, mp), SortPerm(es))
\* what a reader of the finished file must see
Contents == [p \in DOMAIN es |-> LET e == es[SortPerm(es)[p]] IN [name |-> e.name, k |-> e.k, n |-> e.n]]

Distinct == Cardinality(Ranks(es)) = Len(es)
OldNeverZips == ver < 3 => \A k \in DOMAIN es : ~es[k].z
=============================================================================

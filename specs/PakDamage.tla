------------------------------ MODULE PakDamage ------------------------------
(* Single faults on well-formed paks: one structural field replaced, or the  *)
(* file cut. The specification states who may be affected: a fault inside    *)
(* entry k's own header or data leaves every other entry intact.             *)
EXTENDS PakForeign
Structural(t) == t.t \in {"u8", "u16", "u32", "u64", "pos", "str", "name32"}
Fields(toks) == SelectSeq([j \in DOMAIN toks |-> j], LAMBDA j : Structural(toks[j]))
\* entry number owning token j, 0 for index and footer
Owner(toks, n, j) == LET own == {k \in 1..n : LblPos(toks, "e" \o S(k)) < j /\ j < LblPos(toks, "d" \o S(k) \o "end")} IN IF own = {} THEN 0 ELSE CHOOSE k \in own : TRUE
Muts == <<"zero", "max", "inc", "dec", "high", "flip", "big32">>
Case == LET c == out[1] fs == Fields(c.toks) IN
        [ver |-> c.ver, mp |-> c.mp, toks |-> c.toks, contents |-> c.contents, muts |-> Muts,
         fields |-> [x \in DOMAIN fs |-> <<fs[x] - 1, Owner(c.toks, Len(c.contents), fs[x])>>]]
DOut == out # <<>> => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
\* every fault has an owner or hits the index/footer; ownership is unique
OwnersUnique == out # <<>> => \A j \in DOMAIN out[1].toks : Cardinality({k \in 1..Len(es) : LblPos(out[1].toks, "e" \o S(k)) < j /\ j < LblPos(out[1].toks, "d" \o S(k) \o "end")}) <= 1
=============================================================================

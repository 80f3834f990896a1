------------------------------ MODULE PakForeign ------------------------------
(* Well-formed paks of any readable version laid out by another tool: other  *)
(* index orders, compression slots, block sizes, hashed indexes.             *)
EXTENDS PakLayout, PakNames, Json, CSV, IOUtils
CONSTANTS Vers, BSs, Rs, Conts, MaxE
VARIABLES es, out
Add == /\ out = <<>> /\ Len(es) < MaxE
       /\ \E r \in Rs \ {es[k].r : k \in DOMAIN es}, c \in Conts, z \in BOOLEAN :
            es' = Append(es, [r |-> r, name |-> Names[r].n, k |-> c[1], n |-> c[2], z |-> z /\ c[2] > 0])
       /\ UNCHANGED out
Slots(m) == [j \in 1..5 |-> IF j = m THEN "Zlib" ELSE IF j < m THEN "Oodle" ELSE ""]
Id(n) == [p \in 1..n |-> p]
Rev(n) == [p \in 1..n |-> n + 1 - p]
Dirs(E) == LET used == SelectSeq(DirList, LAMBDA d : \E k \in DOMAIN E : Names[E[k].r].d = d)
               Files(d) == SelectSeq(Id(Len(E)), LAMBDA k : Names[E[k].r].d = d)
           IN [j \in DOMAIN used |-> [d |-> used[j], fs |-> [x \in DOMAIN Files(used[j]) |-> [f |-> Names[E[Files(used[j])[x]].r].f, k |-> Files(used[j])[x]]]]]
CanZip(ver, E) == ver >= 3 \/ \A k \in DOMAIN E : ~E[k].z
Contents == [k \in DOMAIN es |-> [name |-> es[k].name, k |-> es[k].k, n |-> es[k].n]]
Emit == /\ out = <<>>
        /\ \E ver \in Vers, bs \in BSs, rev \in BOOLEAN, m \in {1, 2, 3}, unc \in {0, 65536}, mp \in {"../../../", "", "../../../Gam{00e9}/"}, wide \in BOOLEAN, phi \in BOOLEAN :
             /\ CanZip(ver, es)
             /\ (ver < 10 => ~wide /\ ~phi)
             /\ (ver >= 10 => ~rev)
             /\ LET o == [bs |-> bs, mp |-> mp, unc |-> unc, meth |-> IF ver >= 8 THEN m ELSE <<1, 16, 32>>[m], names |-> Slots(m), wide |-> wide, phi |-> phi]
                    toks == IF ver >= 10 THEN Hashed(ver, es, o, Dirs(es)) ELSE Classic(ver, es, o, IF rev THEN Rev(Len(es)) ELSE Id(Len(es)))
                IN out' = <<[ver |-> ver, mp |-> mp, toks |-> toks, contents |-> Contents]>>
        /\ UNCHANGED es
FInit == es = <<>> /\ out = <<>>
FNext == Add \/ Emit
FSpec == FInit /\ [][FNext]_<<es, out>>
Out == out # <<>> => CSVWrite("%1$s", <<ToJson(out[1])>>, IOEnv.OUT)
LayoutOk == out # <<>> => WellFormed(out[1].toks)
=============================================================================

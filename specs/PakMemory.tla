------------------------------ MODULE PakMemory ------------------------------
(* The in-memory container: a sorted map from names to contents with a       *)
(* version, a mount point and the compression setting inherited from the     *)
(* last loaded file; saved files are remembered abstractly.                  *)
EXTENDS PakLayout, PakNames
CONSTANTS Rs, Files
VARIABLES mver, mmp, ments, mzip, disk
\* ments : [Rs -> content or NoC]; disk : [Files -> [ok, ver, mp, ents, zip]]
NoC == [k |-> "none", n |-> -1]
Empty == [r \in Rs |-> NoC]
NoFile == [ok |-> FALSE, ver |-> 0, mp |-> "", ents |-> Empty, zip |-> FALSE]
pvars == <<mver, mmp, ments, mzip, disk>>
PInit == mver = 8 /\ mmp = "../../../" /\ ments = Empty /\ mzip = FALSE /\ disk = [f \in Files |-> NoFile]

Has(E, r) == E[r].k # "none"
NewMem(v) == mver' = v /\ mmp' = "../../../" /\ ments' = Empty /\ mzip' = FALSE /\ UNCHANGED disk
Set(r, c) == ments' = [ments EXCEPT ![r] = c] /\ UNCHANGED <<mver, mmp, mzip, disk>>
SetVer(v) == mver' = v /\ UNCHANGED <<mmp, ments, mzip, disk>>
SetMp(m)  == mmp' = m /\ UNCHANGED <<mver, ments, mzip, disk>>

Zipped(c) == mzip /\ c.n >= 32
SaveRet == IF \E r \in Rs : Has(ments, r) /\ Zipped(ments[r]) /\ mver < 3 THEN "config" ELSE IF mver >= 10 THEN "unsupported" ELSE "ok"
Save(f, ret) == /\ ret = SaveRet
                /\ disk' = IF ret = "ok" THEN [disk EXCEPT ![f] = [ok |-> TRUE, ver |-> mver, mp |-> mmp, ents |-> ments, zip |-> mzip]] ELSE disk
                /\ UNCHANGED <<mver, mmp, ments, mzip>>
\* loading merges: the file's entries win, others stay
Load(f) == /\ disk[f].ok
           /\ mver' = disk[f].ver /\ mmp' = disk[f].mp
           /\ ments' = [r \in Rs |-> IF Has(disk[f].ents, r) THEN disk[f].ents[r] ELSE ments[r]]
           /\ mzip' = (disk[f].ver >= 8 /\ disk[f].zip)
           /\ UNCHANGED disk
LoadFrom(f) == /\ disk[f].ok
               /\ mver' = disk[f].ver /\ mmp' = disk[f].mp /\ ments' = disk[f].ents
               /\ mzip' = (disk[f].ver >= 8 /\ disk[f].zip)
               /\ UNCHANGED disk

RECURSIVE SortedFrom(_, _)
SortedFrom(E, r) == IF r > Len(Names) THEN <<>>
                    ELSE (IF r \in Rs /\ Has(E, r) THEN <<[r |-> r, name |-> Names[r].n, k |-> E[r].k, n |-> E[r].n]>> ELSE <<>>) \o SortedFrom(E, r + 1)
Listing == LET l == SortedFrom(ments, 1) IN [p \in DOMAIN l |-> [name |-> l[p].name, k |-> l[p].k, n |-> l[p].n]]
SavedFile(d) == LET l == SortedFrom(d.ents, 1)
                    E == [p \in DOMAIN l |-> [r |-> l[p].r, name |-> l[p].name, k |-> l[p].k, n |-> l[p].n, z |-> d.zip /\ l[p].n >= 32]]
                IN Classic(d.ver, E, [WriterOpts(65536, d.mp) EXCEPT !.names = IF d.zip THEN ZlibOnly ELSE NoNames], [p \in DOMAIN E |-> p])
=============================================================================

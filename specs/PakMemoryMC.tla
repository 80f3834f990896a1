----------------------------- MODULE PakMemoryMC -----------------------------
EXTENDS PakMemory, Json, CSV, IOUtils
CONSTANTS Vers, Conts, Mps, Depth, Emit, Zip0
VARIABLE hist
C(c) == [k |-> c[1], n |-> c[2]]
\* optionally the first file already holds a compressed archive made by the streaming writer
Zipped0 == [ok |-> TRUE, ver |-> 8, mp |-> "../../../", ents |-> [r \in Rs |-> IF r = 1 THEN [k |-> "t", n |-> 100] ELSE NoC], zip |-> TRUE]
MCInit == /\ mver = 8 /\ mmp = "../../../" /\ ments = Empty /\ mzip = FALSE
          /\ disk = [f \in Files |-> IF Zip0 /\ f = 1 THEN Zipped0 ELSE NoFile] /\ hist = <<>>
L(e) == hist' = IF Emit THEN Append(hist, [e EXCEPT !.ver = mver', !.mp = mmp', !.ents = ments']) ELSE <<>>
R(op, a) == [op |-> op, r |-> 0, k |-> "", n |-> 0, a |-> a, ret |-> "ok", ver |-> 0, mp |-> "", ents |-> <<>>, toks |-> <<>>]
MCStep ==
  /\ (Emit => Len(hist) < Depth)
  /\ \/ \E v \in Vers : NewMem(v) /\ L(R("new", v))
     \/ \E r \in Rs, c \in Conts : Set(r, C(c)) /\ L([R("set", 0) EXCEPT !.r = Names[r].n, !.k = c[1], !.n = c[2]])
     \/ \E v \in Vers : SetVer(v) /\ L(R("ver", v))
     \/ \E m \in Mps : SetMp(m) /\ L(R("mp", m))
     \/ \E f \in Files : Save(f, SaveRet) /\ L([R("save", f) EXCEPT !.ret = SaveRet, !.toks = IF SaveRet = "ok" THEN <<disk'[f]>> ELSE <<>>])
     \/ \E f \in Files : Load(f) /\ L(R("load", f))
     \/ \E f \in Files : LoadFrom(f) /\ L(R("loadfrom", f))
MCFin == Emit /\ Len(hist) = Depth /\ UNCHANGED pvars /\ hist' = Append(hist, [op |-> "fin"])
MCNext == MCStep \/ MCFin
MCSpec == MCInit /\ [][MCNext]_<<pvars, hist>>
\* expand the abstract log only when it is printed
Fill(h) == [j \in DOMAIN h |-> IF h[j].op = "fin" THEN h[j]
              ELSE [h[j] EXCEPT !.ents = LET l == SortedFrom(@, 1) IN [p \in DOMAIN l |-> [name |-> l[p].name, k |-> l[p].k, n |-> l[p].n]],
                                !.toks = IF @ = <<>> THEN <<>> ELSE SavedFile(@[1])]]
Out == (Emit /\ Len(hist) = Depth + 1) => CSVWrite("%1$s", <<ToJson(Fill(hist))>>, IOEnv.OUT)
\* saving never alters the container; loading what was just saved never alters it either
SaveLoadIdentity == \A f \in Files : (disk[f].ok /\ disk[f].ents = ments /\ disk[f].ver = mver /\ disk[f].mp = mmp) =>
                       [r \in Rs |-> IF Has(disk[f].ents, r) THEN disk[f].ents[r] ELSE ments[r]] = ments
TypeOK == \A r \in Rs : ments[r] = NoC \/ \E c \in Conts : ments[r] = C(c) \/ ments[r] = [k |-> "t", n |-> 100]
=============================================================================

----------------------------- MODULE RegistryMC -----------------------------
(* Registries of every format version, edit histories on them, and damage.      *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANTS Engs, Vers, Seeds, Depth
VARIABLES x, e, ver, d, hist
vars == <<x, e, ver, d, hist>>
Y == Sub(Sub(x, e), ver)
PkFlags(y) == Pick(y, <<"0", "2147484160", "2147615232", "1", "512", "2149581312">>)
OptN(y) == Opt(y, NmOf(Sub(y, 1)))
\* distinct tags
TagsOf(y) == LET n == Nat2(Sub(y, 1), 4) o == Nat2(Sub(y, 2), Len(NamePool)) IN
  [j \in 1..n |-> << <<NamePool[((o + j) % Len(NamePool)) + 1], Pick(Sub(y, 10 + j), <<0, 1, 5>>)>>, Opt(Sub(y, 20 + j), Text(Sub(y, 30 + j)))>>]
AssetOf(y) == [object_path |-> NmOf(Sub(y, 1)), package_path |-> NmOf(Sub(y, 2)), package_name |-> NmOf(Sub(y, 3)), asset_name |-> NmOf(Sub(y, 4)), class |-> <<NmOf(Sub(y, 5)), NmOf(Sub(y, 6))>>,
   tags |-> TagsOf(Sub(y, 7)), chunks |-> Seq0(Sub(y, 8), 3, LAMBDA z : Num(z)), flags |-> PkFlags(Sub(y, 9))]
\* some of the nodes 0..n-1, in ascending, descending or rotated order
Some0(y, n, dense) == LET s == SelectSeq([j \in 1..n |-> j - 1], LAMBDA j : ~Flip(Sub(y, 50 + j), dense)) m == Len(s) r == IF m = 0 THEN 0 ELSE Nat2(Sub(y, 2), m)
                          rot == [j \in 1..m |-> s[((j + r - 1) % m) + 1]] IN
                      CASE Nat2(Sub(y, 1), 3) = 0 -> s [] Nat2(Sub(y, 1), 3) = 1 -> [j \in 1..m |-> s[m + 1 - j]] [] OTHER -> rot
FlagsOf(y, w) == IF w = 1 THEN (IF B(y, 1) THEN {0} ELSE {}) ELSE {b \in 0..7 : B(y, 10 + b)}
EdgesOf(y, n, w, dense) == LET s == Some0(y, n, dense) IN [j \in DOMAIN s |-> [i |-> s[j], f |-> FlagsOf(Sub(y, 500 + j), w)]]
\* dependencies as stored: with flags, hard and soft ones are mixed and their order is free
NodeOf(y, n) ==
  LET dense == Pick(Sub(y, 9), <<2, 2, 9>>)
      pk == EdgesOf(Sub(y, 1), n, 8, dense)  mg == EdgesOf(Sub(y, 2), n, 1, dense) IN
  [ident |-> [j \in 1..4 |-> OptN(Sub(y, 20 + j))], hard |-> IF ver < AddedDependencyFlags THEN pk ELSE <<>>, soft |-> IF ver < AddedDependencyFlags THEN EdgesOf(Sub(y, 3), n, 8, 2) ELSE pk,
   name |-> Some0(Sub(y, 4), n, dense), hardm |-> IF ver \in AddedHardManage..(AddedDependencyFlags - 1) THEN EdgesOf(Sub(y, 5), n, 1, 2) ELSE <<>>, softm |-> mg, refs |-> Some0(Sub(y, 6), n, 2)]
PackOf(y) == [name |-> NmOf(Sub(y, 1)), size |-> Num(Sub(y, 2)), guid |-> Nat2(Sub(y, 3), 4), hash |-> Opt(Sub(y, 4), RawOf(Sub(y, 5), 16)), fv |-> Num(Sub(y, 6)), fv5 |-> Num(Sub(y, 7)), lic |-> Num(Sub(y, 8)), flags |-> Pos0(Sub(y, 9)),
   cvs |-> Seq0(Sub(y, 10), 2, LAMBDA z : <<Pick(Sub(z, 1), <<"FCoreObjectVersion", "Unknown1", "FReleaseObjectVersion">>), Pos0(Sub(z, 2))>>), classes |-> Seq0(Sub(y, 11), 3, LAMBDA z : NmOf(z))]
Start == LET n == Pick(Sub(Y, 1), <<0, 1, 2, 5, 6, 9, 40>>) IN
  [e |-> e, ver |-> ver, names |-> Seq0(Sub(Y, 2), 2, LAMBDA z : Pick(z, <<"Unused1", "None", "Unused{00e9}">>)), assets |-> TLCEval(Seq0(Sub(Y, 3), 3, LAMBDA z : AssetOf(z))),
   nodes |-> TLCEval([j \in 1..n |-> NodeOf(Sub(Y, 600 + j), n)]), packs |-> TLCEval(Seq0(Sub(Y, 5), 3, LAMBDA z : PackOf(z)))]

\* ---- edits through the public fields
Put(s, k, v) == [s EXCEPT ![k] = v]
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
FlagList == IF ver < AddedDependencyFlags THEN {} ELSE {"hard", "soft", "hardm", "softm"}
Kinds == <<"asset-add", "asset-del", "asset-name", "asset-class", "tag-set", "tag-del", "chunks", "flags", "pack-del", "pack-set", "ident", "node-add", "edge-add", "edge-add", "edge-del", "flagged-add">>
Lists == <<"hard", "soft", "name", "hardm", "softm", "refs">>
AField == <<"object_path", "package_path", "package_name", "asset_name">>
Do(op, y) ==
  LET na == Len(d.assets) nn == Len(d.nodes) np == Len(d.packs)
      ja == Nat2(Sub(y, 1), na) + 1  jn == Nat2(Sub(y, 2), nn) + 1  jp == Nat2(Sub(y, 3), np) + 1 IN
  CASE op = "asset-add" -> LET a == AssetOf(Sub(y, 4)) IN [ed |-> [op |-> op, a |-> a], d |-> [d EXCEPT !.assets = Append(@, a)]]
    [] op = "asset-del" /\ na > 0 -> [ed |-> [op |-> op, j |-> ja - 1], d |-> [d EXCEPT !.assets = Cut(@, ja)]]
    [] op = "asset-name" /\ na > 0 -> LET f == Pick(Sub(y, 4), AField) n == NmOf(Sub(y, 5)) IN [ed |-> [op |-> op, j |-> ja - 1, f |-> f, n |-> n], d |-> [d EXCEPT !.assets[ja] = [@ EXCEPT ![f] = n]]]
    [] op = "asset-class" /\ na > 0 -> LET n == <<NmOf(Sub(y, 5)), NmOf(Sub(y, 6))>> IN [ed |-> [op |-> op, j |-> ja - 1, n |-> n], d |-> [d EXCEPT !.assets[ja].class = n]]
    [] op = "tag-set" /\ na > 0 -> LET k == <<Pick(Sub(y, 5), NamePool), Pick(Sub(y, 6), <<0, 1>>)>> v == Opt(Sub(y, 7), Text(Sub(y, 8))) ts == d.assets[ja].tags
                                       at == {j \in DOMAIN ts : ts[j][1] = k} IN
                                   [ed |-> [op |-> op, j |-> ja - 1, k |-> k, v |-> v], d |-> [d EXCEPT !.assets[ja].tags = IF at = {} THEN Append(ts, <<k, v>>) ELSE Put(ts, CHOOSE j \in at : TRUE, <<k, v>>)]]
    [] op = "tag-del" /\ na > 0 /\ d.assets[ja].tags # <<>> -> LET ts == d.assets[ja].tags k == Nat2(Sub(y, 5), Len(ts)) + 1 IN
                                   [ed |-> [op |-> op, j |-> ja - 1, k |-> ts[k][1]], d |-> [d EXCEPT !.assets[ja].tags = Cut(ts, k)]]
    [] op = "chunks" /\ na > 0 -> LET c == Seq0(Sub(y, 5), 3, LAMBDA z : Num(z)) IN [ed |-> [op |-> op, j |-> ja - 1, c |-> c], d |-> [d EXCEPT !.assets[ja].chunks = c]]
    [] op = "flags" /\ na > 0 -> LET f == PkFlags(Sub(y, 5)) IN [ed |-> [op |-> op, j |-> ja - 1, f |-> f], d |-> [d EXCEPT !.assets[ja].flags = f]]
    [] op = "pack-del" /\ np > 0 -> [ed |-> [op |-> op, j |-> jp - 1], d |-> [d EXCEPT !.packs = Cut(@, jp)]]
    [] op = "pack-set" /\ np > 0 -> LET p == PackOf(Sub(y, 5)) IN [ed |-> [op |-> op, j |-> jp - 1, p |-> [p EXCEPT !.cvs = d.packs[jp].cvs]], d |-> [d EXCEPT !.packs[jp] = [p EXCEPT !.cvs = d.packs[jp].cvs]]]
    [] op = "ident" /\ nn > 0 -> LET i == [j \in 1..4 |-> OptN(Sub(y, 20 + j))] IN [ed |-> [op |-> op, j |-> jn - 1, i |-> i], d |-> [d EXCEPT !.nodes[jn].ident = i]]
    [] op = "node-add" -> LET i == [j \in 1..4 |-> OptN(Sub(y, 20 + j))] IN [ed |-> [op |-> op, i |-> i], d |-> [d EXCEPT !.nodes = Append(@, [ident |-> i, hard |-> <<>>, soft |-> <<>>, name |-> <<>>, hardm |-> <<>>, softm |-> <<>>, refs |-> <<>>])]]
    [] op = "edge-add" /\ nn > 0 -> LET l == Pick(Sub(y, 5), SelectSeq(Lists, LAMBDA z : z \notin FlagList /\ (z # "hardm" \/ ver >= AddedHardManage))) to == Nat2(Sub(y, 6), nn) IN
                                   [ed |-> [op |-> op, j |-> jn - 1, l |-> l, to |-> to], d |-> [d EXCEPT !.nodes[jn] = [@ EXCEPT ![l] = Append(@, IF l \in {"name", "refs"} THEN to ELSE [i |-> to, f |-> {}])]]]
    [] op = "edge-del" /\ nn > 0 -> LET l == Pick(Sub(y, 5), SelectSeq(Lists, LAMBDA z : z \notin FlagList)) m == Len(d.nodes[jn][l]) k == Nat2(Sub(y, 6), m) + 1 IN
                                   IF m = 0 THEN [ed |-> [op |-> "none"], d |-> d] ELSE [ed |-> [op |-> op, j |-> jn - 1, l |-> l, k |-> k - 1], d |-> [d EXCEPT !.nodes[jn] = [@ EXCEPT ![l] = Cut(@, k)]]]
    \* a soft dependency together with its flags
    [] op = "flagged-add" /\ nn > 0 /\ ver >= AddedDependencyFlags -> LET l == Pick(Sub(y, 5), <<"soft", "softm">>) w == IF l = "soft" THEN 8 ELSE 1 to == Nat2(Sub(y, 6), nn) f == FlagsOf(Sub(y, 7), w) \ {IF w = 8 THEN HardBit ELSE 0} IN
                                   [ed |-> [op |-> op, j |-> jn - 1, l |-> l, to |-> to, f |-> [b \in 1..w |-> IF (b - 1) \in f THEN 1 ELSE 0]], d |-> [d EXCEPT !.nodes[jn] = [@ EXCEPT ![l] = Append(@, [i |-> to, f |-> f])]]]
    [] OTHER -> [ed |-> [op |-> "none"], d |-> d]
Init == x \in Seeds /\ e \in Engs /\ ver \in Vers /\ d = Canon(Start) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ LET y == Sub(Y, 8000 + Len(hist)) r == Do(Pick(Sub(y, 900), Kinds), y) IN d' = r.d /\ hist' = Append(hist, r.ed)
        /\ UNCHANGED <<x, e, ver>>
Spec == Init /\ [][Next]_vars

\* ---- design: keeping the dependencies in order loses none of them; dependencies stay inside the registry
SetOf(s) == {s[j] : j \in DOMAIN s}
EdgesKept == hist = <<>> => LET st == TLCEval(Start) IN \A j \in DOMAIN st.nodes : LET a == st.nodes[j] b == Sorted(ver, a) IN
    /\ SetOf(a.hard) \cup SetOf(a.soft) = SetOf(b.hard) \cup SetOf(b.soft) /\ Len(a.hard) + Len(a.soft) = Len(b.hard) + Len(b.soft)
    /\ SetOf(a.name) = SetOf(b.name) /\ SetOf(a.refs) = SetOf(b.refs)
    /\ Sorted(ver, b) = b
    /\ ver >= AddedDependencyFlags => (\A q \in SetOf(b.hard) : HardBit \in q.f) /\ (\A q \in SetOf(b.soft) : HardBit \notin q.f)
Inside == \A j \in DOMAIN d.nodes : LET n == d.nodes[j] IN (SetOf(n.name) \cup SetOf(n.refs) \cup {q.i : q \in SetOf(n.hard) \cup SetOf(n.soft) \cup SetOf(n.hardm) \cup SetOf(n.softm)}) \subseteq 0..(Len(d.nodes) - 1)
LayoutOk == Len(d.nodes) < 20 /\ Len(hist) \in {0, Depth} => WellFormed(TLCEval(Tokens0(d)))
\* what is stored, what it is saved as, the edits, and what it is saved as then
Out == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(LET st == TLCEval(Start) IN [eng |-> e, ver |-> ver, toks |-> Tokens0(st), kept |-> Tokens0(Canon(st)), view |-> View0(Canon(st)), edits |-> hist, edited |-> Tokens0(d), canon |-> Tokens0(Canon(d)), after |-> View0(Canon(d))])>>, IOEnv.OUT)
\* a registry with one index or number that cannot be
Bad == LET t == TLCEval(Tokens0(Start)) n == Len(Start.nodes)
           J == SelectSeq([j \in DOMAIN t |-> j], LAMBDA j : "ix" \in DOMAIN t[j] \/ "cnt" \in DOMAIN t[j]) j == Pick(Sub(Y, 1), J) IN
       IF Flip(Sub(Y, 2), 4) THEN [eng |-> e, ver |-> ver, toks |-> t, cut |-> 1 + Nat2(Sub(Y, 3), 998), what |-> "cut"]
       ELSE IF "ix" \in DOMAIN t[j] THEN [eng |-> e, ver |-> ver, toks |-> [t EXCEPT ![j].v = Pick(Sub(Y, 4), <<n, -1, 2147483647, n + 7, -2147483647>>)], cut |-> 1000, what |-> "index"]
       ELSE [eng |-> e, ver |-> ver, toks |-> [t EXCEPT ![j].v = Pick(Sub(Y, 4), <<-1, 2147483647, -2147483647>>)], cut |-> 1000, what |-> "count"]
OutBad == CSVWrite("%1$s", <<ToJson(Bad)>>, IOEnv.OUT)
=============================================================================

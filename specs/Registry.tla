------------------------------ MODULE Registry ------------------------------
(* An asset registry: asset records, dependency nodes, package records.        *)
(* Layout per format version, what a reader reports, and how edits change it.  *)
EXTENDS Props
RemovedMD5Hash == 4  AddedHardManage == 5  AddedCookedMD5Hash == 6  AddedDependencyFlags == 7  FixedTags == 8
WorkspaceDomain == 9  PackageImportedClasses == 10  PackageFileSummaryVersionChange == 11  ClassPaths == 14
N2(n) == NmN(n[1], n[2])
\* an index of a node, a number of things: what damage is done to
Ix(n) == <<[t |-> "i32", v |-> n, ix |-> TRUE]>>
NumT(n) == <<[t |-> "i32", v |-> n, cnt |-> TRUE]>>
Many(f(_), s) == NumT(Len(s)) \o Map(LAMBDA j : f(s[j]), Len(s))

\* ---- asset records
AssetT(ver, a) == N2(a.object_path) \o N2(a.package_path)
   \o (IF ver >= ClassPaths THEN N2(a.class[1]) \o N2(a.class[2]) ELSE N2(a.class[2]))
   \o N2(a.package_name) \o N2(a.asset_name)
   \o Many(LAMBDA t : N2(t[1]) \o OptStr(t[2]), a.tags) \o Many(LAMBDA c : I32(c), a.chunks) \o U32(a.flags)
AssetV(ver, a) == [t |-> "AssetData", object_path |-> NmV(a.object_path), package_path |-> NmV(a.package_path), package_name |-> NmV(a.package_name), asset_name |-> NmV(a.asset_name),
   asset_class |-> (IF ver >= ClassPaths THEN NoneV ELSE NmV(a.class[2])),
   asset_path |-> (IF ver >= ClassPaths THEN [package_name |-> NmV(a.class[1]), asset_name |-> NmV(a.class[2])] ELSE NoneV),
   tags_and_values |-> [map |-> [j \in DOMAIN a.tags |-> <<NmV(a.tags[j][1]), OptV(a.tags[j][2])>>]],
   chunk_ids |-> a.chunks, package_flags |-> [bits |-> a.flags, of |-> "EPackageFlags"]]

\* ---- dependency nodes: lists hard, soft, name, hard manage, soft manage, referencers of node indexes.
\* From AddedDependencyFlags on package and manage dependencies carry flags: a dependency is [i: node, f: set of bits];
\* it is hard when it is needed with all of "hard", "game" and "build" (bit 7), or managed directly (bit 0).
HardBit == 7
IdentT(d) == U8((IF d[1].some THEN 1 ELSE 0) + (IF d[2].some THEN 2 ELSE 0) + (IF d[3].some THEN 4 ELSE 0) + (IF d[4].some THEN 8 ELSE 0))
   \o Map(LAMBDA j : When(d[j].some, N2(d[j].v)), 4)
IdentV(d) == LET o(k) == IF d[k].some THEN NmV(d[k].v) ELSE NoneV IN [package_name |-> o(1), primary_asset_type |-> o(2), object_name |-> o(3), value_name |-> o(4)]
\* flags of all dependencies of a list, w bits each, in whole 32 bit words (w divides 32)
RECURSIVE Words(_, _, _)
Words(s, w, k) == IF k >= Len(s) THEN <<>>
   ELSE LET n == 32 \div w
            part == SubSeq(s, k + 1, IF k + n > Len(s) THEN Len(s) ELSE k + n)
        IN <<[t |-> "bits", w |-> 4, v |-> UNION {{((j - 1) * w) + b : b \in part[j].f} : j \in DOMAIN part}]>> \o Words(s, w, k + n)
Flagged(s, w) == Many(LAMBDA e : Ix(e.i), s) \o Words(s, w, 0)
Plain(s) == Many(LAMBDA e : Ix(e), s)
NodeT(ver, n) ==
  IF ver < AddedDependencyFlags
  THEN IdentT(n.ident) \o NumT(Len(n.hard)) \o NumT(Len(n.soft)) \o NumT(Len(n.name)) \o NumT(Len(n.softm)) \o When(ver >= AddedHardManage, NumT(Len(n.hardm))) \o NumT(Len(n.refs))
       \o Map(LAMBDA j : Ix(n.hard[j].i), Len(n.hard)) \o Map(LAMBDA j : Ix(n.soft[j].i), Len(n.soft)) \o Map(LAMBDA j : Ix(n.name[j]), Len(n.name))
       \o Map(LAMBDA j : Ix(n.softm[j].i), Len(n.softm)) \o When(ver >= AddedHardManage, Map(LAMBDA j : Ix(n.hardm[j].i), Len(n.hardm))) \o Map(LAMBDA j : Ix(n.refs[j]), Len(n.refs))
  ELSE IdentT(n.ident) \o Flagged(n.hard \o n.soft, 8) \o Plain(n.name) \o Flagged(n.hardm \o n.softm, 1) \o Plain(n.refs)
\* flags as a reader reports them: one bit after the other, dependency by dependency
FlagV(s, w) == [k \in 1..(Len(s) * w) |-> IF ((k - 1) % w) \in s[((k - 1) \div w) + 1].f THEN 1 ELSE 0]
IxV(s) == [j \in DOMAIN s |-> [index |-> s[j]]]
IxF(s) == [j \in DOMAIN s |-> [index |-> s[j].i]]
NodeV(ver, n) == [identifier |-> IdentV(n.ident), hard_dependencies |-> IxF(n.hard), soft_dependencies |-> IxF(n.soft), name_dependencies |-> IxV(n.name),
   hard_manage_dependencies |-> (IF ver >= AddedHardManage THEN IxF(n.hardm) ELSE <<>>), soft_manage_dependencies |-> IxF(n.softm), referencers |-> IxV(n.refs),
   package_flags |-> (IF ver < AddedDependencyFlags THEN NoneV ELSE FlagV(n.hard \o n.soft, 8)), manage_flags |-> (IF ver < AddedDependencyFlags THEN NoneV ELSE FlagV(n.hardm \o n.softm, 1))]

\* ---- package records
PackT(ver, p) == N2(p.name) \o I64(p.size) \o GuidT(p.guid)
   \o When(ver >= AddedCookedMD5Hash, IF p.hash.some THEN U32(1) \o Raw(p.hash.v) ELSE U32(0))
   \o When(ver >= WorkspaceDomain, I32(p.fv) \o When(ver >= PackageFileSummaryVersionChange, I32(p.fv5)) \o I32(p.lic) \o U32(p.flags)
                                   \o Many(LAMBDA v : Cv(v[1]) \o I32(v[2]), p.cvs))
   \o When(ver >= PackageImportedClasses, Many(LAMBDA n : N2(n), p.classes))
PackV(ver, p) == [package_name |-> NmV(p.name), disk_size |-> p.size, package_guid |-> [guid |-> p.guid],
   cooked_hash |-> (IF ver < AddedCookedMD5Hash THEN NoneV ELSE [hash |-> IF p.hash.some THEN p.hash.v ELSE NoneV]),
   file_version |-> (IF ver >= WorkspaceDomain THEN p.fv ELSE 0), ue5_version |-> (IF ver >= PackageFileSummaryVersionChange THEN p.fv5 ELSE NoneV),
   file_version_licensee_ue |-> (IF ver >= WorkspaceDomain THEN p.lic ELSE -1), flags |-> (IF ver >= WorkspaceDomain THEN p.flags ELSE 0),
   custom_versions |-> (IF ver >= WorkspaceDomain THEN [j \in DOMAIN p.cvs |-> [version |-> p.cvs[j][2]]] ELSE NoneV),
   imported_classes |-> (IF ver >= PackageImportedClasses THEN [j \in DOMAIN p.classes |-> NmV(p.classes[j])] ELSE NoneV)]

\* ---- the whole file
Head0(ver) == U32("1904189159") \o U32("3920644410") \o U32("2293469490") \o U32("456687879") \o I32(ver)   \* identifies the format
DataT(d) == Many(LAMBDA a : AssetT(d.ver, a), d.assets)
   \o (IF d.ver < AddedDependencyFlags THEN Many(LAMBDA n : NodeT(d.ver, n), d.nodes)
       ELSE Pos64("depend", "depbeg") \o Lbl("depbeg") \o Many(LAMBDA n : NodeT(d.ver, n), d.nodes) \o Lbl("depend"))
   \o Many(LAMBDA p : PackT(d.ver, p), d.packs)
Tokens0(d) == Head0(d.ver) \o (IF d.ver < FixedTags THEN Pos64("names", "0") ELSE <<>>) \o DataT(d)
   \o (IF d.ver < FixedTags THEN Lbl("names") \o NCount \o <<[t |-> "names", v |-> d.names, h |-> Obj(d.e) >= NAME_HASHES_SERIALIZED, alt |-> <<>>]>> ELSE <<>>)
View0(d) == [assets_data |-> [j \in DOMAIN d.assets |-> AssetV(d.ver, d.assets[j])], depends_nodes |-> [j \in DOMAIN d.nodes |-> NodeV(d.ver, d.nodes[j])], package_data |-> [j \in DOMAIN d.packs |-> PackV(d.ver, d.packs[j])]]

\* ---- the order in which dependencies with flags are kept: hard ones first, by node
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> THEN <<e>> ELSE IF e.i < Head(s).i THEN <<e>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), e)
RECURSIVE SortE(_)
SortE(s) == IF s = <<>> THEN <<>> ELSE Insert(SortE(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
SortI(s) == LET r == SortE([j \in DOMAIN s |-> [i |-> s[j]]]) IN [j \in DOMAIN r |-> r[j].i]
Sorted(ver, n) == IF ver < AddedDependencyFlags THEN n
   ELSE LET all == n.hard \o n.soft  man == n.hardm \o n.softm
            pick(s, b, yes) == SelectSeq(s, LAMBDA e : (b \in e.f) = yes) IN
        [n EXCEPT !.hard = SortE(pick(all, HardBit, TRUE)), !.soft = SortE(pick(all, HardBit, FALSE)), !.name = SortI(n.name),
                  !.hardm = SortE(pick(man, 0, TRUE)), !.softm = SortE(pick(man, 0, FALSE)), !.refs = SortI(n.refs)]
Canon(d) == [d EXCEPT !.nodes = TLCEval([j \in DOMAIN d.nodes |-> Sorted(d.ver, d.nodes[j])])]
=============================================================================

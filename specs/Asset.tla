-------------------------------- MODULE Asset --------------------------------
(* Layout of a cooked asset (header part and, when split, bulk part) as a      *)
(* token stream, and the document it denotes. d is a document:                 *)
(*  c      [e, o, o5, cv]  versions;  arg engine given to the reader (0 none)  *)
(*  un     unversioned;  split; legacy; stored custom versions; licensee; ...  *)
(* The stream is the concatenation of both parts; label "hdr" ends the header. *)
EXTENDS Wire, Versions
Nm(x)     == <<[t |-> "nm", v |-> x, n |-> 0]>>
NmN(x, n) == <<[t |-> "nm", v |-> x, n |-> n]>>
NCount    == <<[t |-> "ncount"]>>
\* how many names export data may use: as stored (n >= 0), or all of them (n < 0, or once names were added)
NRef(n)   == IF n < 0 THEN NCount ELSE <<[t |-> "nref", v |-> n]>>
\* a number of things stored elsewhere in the file (an I32 whose value the table of contents depends on)
Count(n)  == <<[t |-> "i32", v |-> n, count |-> TRUE]>>
Be32(s)   == <<[t |-> "be32", v |-> s]>>
I8(x)     == <<[t |-> "i8", v |-> x]>>
Bool32(b) == I32(IF b THEN 1 ELSE 0)
When(c, s) == IF c THEN s ELSE <<>>
OptStr(x) == IF x.some THEN Str(x.v) ELSE NoStr
Some(v) == [some |-> TRUE, v |-> v]
Nothing == [some |-> FALSE]
CvIndex == [FCoreObjectVersion |-> 1, FEditorObjectVersion |-> 2, FFrameworkObjectVersion |-> 3, FFortniteMainBranchObjectVersion |-> 4, FAnimPhysObjectVersion |-> 5, FReleaseObjectVersion |-> 6, FSequencerObjectVersion |-> 7, Unknown1 |-> 8, Unknown2 |-> 9]
Cv(n) == <<[t |-> "cv", v |-> n]>>        \* identifier of a custom version container
\* versions a reader works with: what the file stores wins, then what the engine implies
\* ed: how the lists inside objects were changed, if they were
Ctx(e, arg, stored) == [ed |-> "", e |-> e, o |-> Obj(e), o5 |-> Obj5(e),
   cv |-> [n \in Conts |-> LET J == {j \in DOMAIN stored : stored[j].n = n}
                           IN IF J # {} THEN stored[CHOOSE j \in J : TRUE].v ELSE IF arg = 0 THEN 0 ELSE Cust(n, e)]]

EngVer(v) == U16(v.maj) \o U16(v.min) \o U16(v.pat) \o U32(v.bld) \o OptStr(v.br)
Off(present, l) == IF present THEN Pos(4, l, "0") ELSE Count(0)
NDeps(x) == Len(x.deps[1]) + Len(x.deps[2]) + Len(x.deps[3]) + Len(x.deps[4])
RECURSIVE SumDeps(_, _)
SumDeps(xs, k) == IF k = 0 THEN 0 ELSE NDeps(xs[k]) + SumDeps(xs, k - 1)
RECURSIVE I32s(_)
I32s(s) == IF s = <<>> THEN <<>> ELSE I32(Head(s)) \o I32s(Tail(s))
VecT(c, v) == IF c.o5 >= U5_LARGE_WORLD_COORDINATES THEN F64(v[1]) \o F64(v[2]) \o F64(v[3]) ELSE F32(v[1]) \o F32(v[2]) \o F32(v[3])
Tile(c, w) ==
     I32(w.pos[1]) \o I32(w.pos[2]) \o When(c.cv["FFortniteMainBranchObjectVersion"] >= 1, I32(w.pos[3]))
  \o VecT(c, w.min) \o VecT(c, w.max) \o U8(IF w.valid THEN 1 ELSE 0)
  \o OptStr(w.layer) \o I32(w.res0) \o I32(w.res1[1]) \o I32(w.res1[2]) \o I32(w.dist) \o Bool32(w.dse)
  \o Bool32(w.hide) \o OptStr(w.parent)
  \o Count(Len(w.lods)) \o Map(LAMBDA j : I32(w.lods[j][1]) \o F32(w.lods[j][2]) \o F32(w.lods[j][3]) \o I32(w.lods[j][4]) \o I32(w.lods[j][5]), Len(w.lods))
  \o I32(w.z)

Header(d) == LET c == d.c IN
     Be32("3246598814")                                   \* 0xC1832A9E
  \o I32(d.legacy) \o When(d.legacy # -4, I32(IF d.un THEN 0 ELSE 864)) \o I32(IF d.un THEN 0 ELSE c.o)
  \o When(d.legacy <= -8, I32(IF d.un THEN 0 ELSE c.o5))
  \o I32(d.licensee) \o Count(Len(d.stored)) \o Map(LAMBDA j : Cv(d.stored[j].n) \o I32(d.stored[j].v), Len(d.stored))
  \o Pos(4, "hdr", "0") \o Str(d.folder) \o U32(d.pflags) \o NCount \o Pos(4, "names", "0")
  \o When(c.o5 >= U5_ADD_SOFTOBJECTPATH_LIST, I32(d.opq[1]) \o I32(d.opq[2]))
  \o When(c.o >= SERIALIZE_TEXT_IN_PACKAGES, I32(d.opq[3]) \o I32(d.opq[4]))
  \o Count(Len(d.exports)) \o Off(d.exports # <<>>, "exports") \o Count(Len(d.imports)) \o Off(d.imports # <<>>, "imports")
  \o Off(d.depends.some /\ ~d.nodepoff, "depends")
  \o When(c.o >= ADD_STRING_ASSET_REFERENCES_MAP, (IF d.soft.some THEN Count(Len(d.soft.v)) ELSE Count(0)) \o Off(d.soft.some, "soft"))
  \o When(c.o >= ADDED_SEARCHABLE_NAMES, I32(d.opq[5])) \o I32(d.opq[6])
  \o GuidT(d.guid) \o Count(Len(d.gens) + (IF d.curgen THEN 1 ELSE 0)) \o Map(LAMBDA j : I32(d.gens[j][1]) \o I32(d.gens[j][2]), Len(d.gens))
  \o When(d.curgen, Count(Len(d.exports)) \o NCount)
  \o EngVer(d.rec) \o When(c.o >= PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION, EngVer(d.compat))
  \o U32(d.cflags) \o I32(0) \o U32(d.source) \o I32(0) \o When(d.legacy > -7, I32(0))
  \o Off(d.areg, "areg") \o Pos64("bulk", "0") \o Off(d.tile.some, "tile")
  \o Count(Len(d.chunks)) \o I32s(d.chunks)
  \o When(c.o >= PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS, Count(IF d.split THEN SumDeps(d.exports, Len(d.exports)) ELSE -1) \o Pos(4, "preload", "0"))
  \o When(c.o5 >= U5_NAMES_REFERENCED, NRef(d.nref))
  \o When(c.o5 >= U5_PAYLOAD_TOC, I64(d.opq[7])) \o When(c.o5 >= U5_DATA_RESOURCES, I32(d.opq[8]))

Names(d) == Lbl("names") \o <<[t |-> "names", v |-> d.names, h |-> d.c.o >= NAME_HASHES_SERIALIZED, alt |-> d.alt]>>

Imports(d) == Lbl("imports") \o Map(LAMBDA j : LET m == d.imports[j] IN
     NmN(m.cp[1], m.cp[2]) \o NmN(m.cn[1], m.cn[2]) \o I32(m.outer) \o NmN(m.on[1], m.on[2])
     \o When(d.c.o5 >= U5_OPTIONAL_RESOURCES, Bool32(m.opt)), Len(d.imports))

Word(c, a, b) == IF c.o < EXPORTMAP_64BIT_SERIALSIZES THEN Pos(4, a, b) ELSE Pos64(a, b)
Entry(d, k) == LET c == d.c x == d.exports[k] IN
     I32(x.cls) \o I32(x.sup) \o When(c.o >= TEMPLATE_INDEX_IN_COOKED_EXPORTS, I32(x.tpl)) \o I32(x.outer)
  \o NmN(x.name[1], x.name[2]) \o U32(x.flags)
  \o Word(c, "x" \o S(k + 1), "x" \o S(k)) \o Word(c, "x" \o S(k), "0")
  \o Bool32(x.forced) \o Bool32(x.nfc) \o Bool32(x.nfs)
  \o When(c.o5 < U5_REMOVE_OBJECT_EXPORT_PACKAGE_GUID, GuidT(x.guid))
  \o When(c.o5 >= U5_TRACK_OBJECT_EXPORT_IS_INHERITED, Bool32(x.inh))
  \o U32(x.pflags) \o When(c.o >= LOAD_FOR_EDITOR_GAME, Bool32(x.nal)) \o When(c.o >= COOKED_ASSETS_IN_EDITOR_SUPPORT, Bool32(x.isasset))
  \o When(c.o5 >= U5_OPTIONAL_RESOURCES, Bool32(x.gph))
  \o When(c.o >= PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS,
          Count(IF d.split THEN SumDeps(d.exports, k - 1) ELSE -1)
          \o Count(Len(x.deps[1])) \o Count(Len(x.deps[2])) \o Count(Len(x.deps[3])) \o Count(Len(x.deps[4])))

Sections(d) == LET n == Len(d.exports) IN
     Names(d) \o Imports(d)
  \o Lbl("exports") \o Map(LAMBDA k : Entry(d, k), n)
  \o Lbl("depends") \o (IF d.depends.some THEN Map(LAMBDA k : Count(Len(d.depends.v[k])) \o I32s(d.depends.v[k]), n) ELSE <<>>)
  \o Lbl("soft") \o (IF d.soft.some THEN Map(LAMBDA j : Str(d.soft.v[j]), Len(d.soft.v)) ELSE <<>>)
  \o Lbl("areg") \o When(d.areg, I32(0))
  \o Lbl("tile") \o (IF d.tile.some THEN Tile(d.c, d.tile.v) ELSE <<>>)
  \o Lbl("preload") \o (IF d.split THEN Map(LAMBDA k : LET q == d.exports[k].deps IN I32s(q[1]) \o I32s(q[2]) \o I32s(q[3]) \o I32s(q[4]), n) ELSE <<>>)

Bodies(d) == Lbl("hdr") \o Map(LAMBDA k : Lbl("x" \o S(k)) \o d.exports[k].body, Len(d.exports))
          \o Lbl("x" \o S(Len(d.exports) + 1)) \o Lbl("bulk") \o Be32("3246598814")
Tokens(d) == Header(d) \o Sections(d) \o Bodies(d)

\* ---- what a reader must report (field names are those of the public structures)
NmV(x) == [nm |-> x[1], n |-> x[2]]
Idx(n) == [index |-> n]
NoneV == [none |-> TRUE]
OptV(x) == IF x.some THEN x.v ELSE NoneV
BaseV(d, k) == LET c == d.c x == d.exports[k] IN
   [t |-> "BaseExport", class_index |-> Idx(x.cls), super_index |-> Idx(x.sup), template_index |-> Idx(IF c.o >= TEMPLATE_INDEX_IN_COOKED_EXPORTS THEN x.tpl ELSE 0),
    outer_index |-> Idx(x.outer), object_name |-> NmV(x.name), object_flags |-> [bits |-> x.flags, of |-> "EObjectFlags"],
    forced_export |-> x.forced, not_for_client |-> x.nfc, not_for_server |-> x.nfs,
    package_guid |-> (IF c.o5 < U5_REMOVE_OBJECT_EXPORT_PACKAGE_GUID THEN [guid |-> x.guid] ELSE [guid |-> 0, zero |-> TRUE]),
    is_inherited_instance |-> c.o5 >= U5_TRACK_OBJECT_EXPORT_IS_INHERITED /\ x.inh,
    package_flags |-> x.pflags, not_always_loaded_for_editor_game |-> c.o >= LOAD_FOR_EDITOR_GAME /\ x.nal,
    is_asset |-> c.o >= COOKED_ASSETS_IN_EDITOR_SUPPORT /\ x.isasset, generate_public_hash |-> c.o5 >= U5_OPTIONAL_RESOURCES /\ x.gph,
    serialization_before_serialization_dependencies |-> [j \in DOMAIN x.deps[1] |-> Idx(x.deps[1][j])],
    create_before_serialization_dependencies |-> [j \in DOMAIN x.deps[2] |-> Idx(x.deps[2][j])],
    serialization_before_create_dependencies |-> [j \in DOMAIN x.deps[3] |-> Idx(x.deps[3][j])],
    create_before_create_dependencies |-> [j \in DOMAIN x.deps[4] |-> Idx(x.deps[4][j])]]
V3(v) == [x |-> [f |-> v[1]], y |-> [f |-> v[2]], z |-> [f |-> v[3]]]
TileV(c, w) == [t |-> "FWorldTileInfo",
    position |-> [x |-> w.pos[1], y |-> w.pos[2], z |-> IF c.cv["FFortniteMainBranchObjectVersion"] >= 1 THEN w.pos[3] ELSE 0],
    bounds |-> [v1 |-> [value |-> V3(w.min)], v2 |-> [value |-> V3(w.max)], is_valid |-> w.valid],
    layer |-> [name |-> OptV(w.layer), reserved_0 |-> w.res0, streaming_distance |-> w.dist, distance_streaming_enabled |-> w.dse],
    hide_in_tile_view |-> w.hide, parent_tile_package_name |-> OptV(w.parent), z_order |-> w.z,
    lod_list |-> [j \in DOMAIN w.lods |-> [relative_streaming_distance |-> w.lods[j][1], reserved_0 |-> [f |-> w.lods[j][2]], reserved_1 |-> [f |-> w.lods[j][3]], reserved_2 |-> w.lods[j][4], reserved_3 |-> w.lods[j][5]]]]
ImportV(d, j) == LET m == d.imports[j] IN
   [t |-> "Import", class_package |-> NmV(m.cp), class_name |-> NmV(m.cn), outer_index |-> Idx(m.outer), object_name |-> NmV(m.on), optional |-> d.c.o5 >= U5_OPTIONAL_RESOURCES /\ m.opt]
EngV(v) == [major |-> v.maj, minor |-> v.min, patch |-> v.pat, build |-> v.bld, branch |-> OptV(v.br)]
View(d) ==
  [asset |-> [engine_version_recorded |-> EngV(d.rec), engine_version_compatible |-> EngV(IF d.c.o >= PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION THEN d.compat ELSE d.rec), legacy_file_version |-> d.legacy, package_guid |-> [guid |-> d.guid], folder_name |-> d.folder, package_source |-> d.source,
      generations |-> [j \in 1..(Len(d.gens) + (IF d.curgen THEN 1 ELSE 0)) |->
                          IF j <= Len(d.gens) THEN [export_count |-> d.gens[j][1], name_count |-> d.gens[j][2]] ELSE [export_count |-> Len(d.exports)]],
      asset_data |-> [use_event_driven_loader |-> d.split, object_version |-> [enum |-> d.c.o, of |-> "ObjectVersion"],
          object_version_ue5 |-> [enum |-> d.c.o5, of |-> "ObjectVersionUE5"],
          summary |-> [unversioned |-> d.un, file_licensee_version |-> d.licensee, package_flags |-> [bits |-> d.pflags, of |-> "EPackageFlags"]],
          world_tile_info |-> (IF d.tile.some THEN TileV(d.c, d.tile.v) ELSE NoneV),
          exports |-> [k \in DOMAIN d.exports |-> d.exports[k].view @@ [base |-> BaseV(d, k)]]]],
   imports |-> [j \in DOMAIN d.imports |-> ImportV(d, j)]]
Case(d) == [eng |-> d.arg, split |-> d.split, toks |-> Tokens(d), view |-> View(d)]

\* the same frame around opaque bodies: a document into which the objects of d can be moved
Host(d) == [d EXCEPT !.exports = [k \in DOMAIN d.exports |-> [d.exports[k] EXCEPT !.body = Raw(<<255, 255, 255, 127, k>>), !.view = [t |-> "RawExport", data |-> <<255, 255, 255, 127, k>>]]]]
CaseH(d) == Case(d) @@ [host |-> Tokens(Host(d))]

\* ---- design properties of the layout: sections are contiguous, in order and complete
SecOrder == <<"names", "imports", "exports", "depends", "soft", "areg", "tile", "preload", "hdr">>
Ordered(toks) == \A i, j \in DOMAIN SecOrder : i < j => LblPos(toks, SecOrder[i]) < LblPos(toks, SecOrder[j])
=============================================================================

------------------------------ MODULE Versions ------------------------------
(* Engine versions and what they imply: the pair of object versions and the   *)
(* value of every custom version container. Engines are numbered by age.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Eng == 2..32
EngName == <<"VER_UE4_0", "VER_UE4_1", "VER_UE4_2", "VER_UE4_3", "VER_UE4_4", "VER_UE4_5", "VER_UE4_6", "VER_UE4_7", "VER_UE4_8", "VER_UE4_9", "VER_UE4_10", "VER_UE4_11", "VER_UE4_12", "VER_UE4_13", "VER_UE4_14", "VER_UE4_15", "VER_UE4_16", "VER_UE4_17", "VER_UE4_18", "VER_UE4_19", "VER_UE4_20", "VER_UE4_21", "VER_UE4_22", "VER_UE4_23", "VER_UE4_24", "VER_UE4_25", "VER_UE4_26", "VER_UE4_27", "VER_UE5_0", "VER_UE5_1", "VER_UE5_2">>
Name(e) == EngName[e - 1]
ObjT  == <<342, 352, 363, 382, 385, 401, 413, 434, 451, 482, 482, 498, 504, 505, 508, 510, 513, 513, 514, 516, 516, 517, 517, 517, 518, 518, 519, 522, 522, 522, 522>>
Obj5T == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1004, 1008, 1009>>
Obj(e)  == ObjT[e - 1]
Obj5(e) == Obj5T[e - 1]
Conts == {"FCoreObjectVersion", "FEditorObjectVersion", "FFrameworkObjectVersion", "FFortniteMainBranchObjectVersion", "FAnimPhysObjectVersion", "FReleaseObjectVersion", "FSequencerObjectVersion"}
CustT == [
  FCoreObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 4, 4, 4, 4>>,
  FEditorObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 6, 9, 14, 17, 20, 20, 23, 24, 26, 30, 34, 37, 38, 40, 40, 40, 40, 40>>,
  FFrameworkObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 12, 17, 22, 23, 28, 30, 33, 34, 34, 35, 35, 36, 37, 37, 37, 37, 37, 37>>,
  FFortniteMainBranchObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 17, 25, 27, 31, 31, 43, 47, 47, 47, 47>>,
  FAnimPhysObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 7, 12, 16, 17, 17, 17, 17, 17, 17, 17, 17, 17, 17, 17>>,
  FReleaseObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 3, 4, 7, 9, 10, 10, 13, 17, 20, 20, 23, 28, 30, 38, 43, 43, 43, 43>>,
  FSequencerObjectVersion |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3, 4, 4, 4, 6, 9, 9, 11, 11, 11, 12, 12, 13, 13, 13, 13>>]
Cust(c, e) == CustT[c][e - 1]
Defaults(e) == [c \in Conts |-> Cust(c, e)]
\* engine numbers by their usual names
UE4(minor) == minor + 2
UE5(minor) == minor + 30
\* object version thresholds used by the layout specifications
CHANGE_SETARRAY_BYTECODE == 303
UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING == 361
SERIALIZE_RICH_CURVE_KEY == 366
LOAD_FOR_EDITOR_GAME == 365
FTEXT_HISTORY == 368
ADD_STRING_ASSET_REFERENCES_MAP == 384
ENUM_CLASS_SUPPORT == 390
STRUCT_GUID_IN_PROPERTY_TAG == 441
PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION == 444
SERIALIZE_BLUEPRINT_EVENTGRAPH_FASTCALLS == 451
SERIALIZE_TEXT_IN_PACKAGES == 459
TIGHTLY_PACKED_ENUMS == 463
COOKED_ASSETS_IN_EDITOR_SUPPORT == 485
INNER_ARRAY_TAG_INFO == 500
PROPERTY_GUID_IN_PROPERTY_TAG == 503
NAME_HASHES_SERIALIZED == 504
PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS == 507
TEMPLATE_INDEX_IN_COOKED_EXPORTS == 508
ADDED_SEARCHABLE_NAMES == 510
EXPORTMAP_64BIT_SERIALSIZES == 511
ADDED_SOFT_OBJECT_PATH == 514
ADDED_PACKAGE_SUMMARY_LOCALIZATION_ID == 516
ADDED_PACKAGE_OWNER == 518
\* custom version thresholds
REMOVE_UFIELD_NEXT == 29                 \* FFrameworkObjectVersion
PROPERTIES_SERIALIZE_REP_CONDITION == 21 \* FReleaseObjectVersion
ENUM_PROPERTIES == 2                     \* FCoreObjectVersion
FPROPERTIES == 4                         \* FCoreObjectVersion
\* UE5 object versions
U5_NAMES_REFERENCED == 1001
U5_PAYLOAD_TOC == 1002
U5_OPTIONAL_RESOURCES == 1003
U5_LARGE_WORLD_COORDINATES == 1004
U5_REMOVE_OBJECT_EXPORT_PACKAGE_GUID == 1005
U5_TRACK_OBJECT_EXPORT_IS_INHERITED == 1006
U5_FSOFTOBJECTPATH_REMOVE_FNAMES == 1007
U5_ADD_SOFTOBJECTPATH_LIST == 1008
U5_DATA_RESOURCES == 1009
=============================================================================

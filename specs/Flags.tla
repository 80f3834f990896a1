-------------------------------- MODULE Flags --------------------------------
(* The flag words of objects, packages, properties, classes, functions and      *)
(* structs: which bit means what, in ascending order of bits.                    *)
EXTENDS Wire, Choice
ObjectFlags == <<
  <<0, "RF_PUBLIC">>, <<1, "RF_STANDALONE">>, <<2, "RF_MARK_AS_NATIVE">>, <<3, "RF_TRANSACTIONAL">>, <<4, "RF_CLASS_DEFAULT_OBJECT">>, <<5, "RF_ARCHETYPE_OBJECT">>,
  <<6, "RF_TRANSIENT">>, <<7, "RF_MARK_AS_ROOT_SET">>, <<8, "RF_TAG_GARBAGE_TEMP">>, <<9, "RF_NEED_INITIALIZATION">>, <<10, "RF_NEED_LOAD">>, <<11, "RF_KEEP_FOR_COOKER">>,
  <<12, "RF_NEED_POST_LOAD">>, <<13, "RF_NEED_POST_LOAD_SUBOBJECTS">>, <<14, "RF_NEWER_VERSION_EXISTS">>, <<15, "RF_BEGIN_DESTROYED">>, <<16, "RF_FINISH_DESTROYED">>,
  <<17, "RF_BEING_REGENERATED">>, <<18, "RF_DEFAULT_SUB_OBJECT">>, <<19, "RF_WAS_LOADED">>, <<20, "RF_TEXT_EXPORT_TRANSIENT">>, <<21, "RF_LOAD_COMPLETED">>,
  <<22, "RF_INHERITABLE_COMPONENT_TEMPLATE">>, <<23, "RF_DUPLICATE_TRANSIENT">>, <<24, "RF_STRONG_REF_ON_FRAME">>, <<25, "RF_NON_P_I_E_DUPLICATE_TRANSIENT">>,
  <<26, "RF_DYNAMIC">>, <<27, "RF_WILL_BE_LOADED">>, <<28, "RF_HAS_EXTERNAL_PACKAGE">>>>
PackageFlags == <<
  <<0, "PKG_NEWLY_CREATED">>, <<1, "PKG_CLIENT_OPTIONAL">>, <<2, "PKG_SERVER_SIDE_ONLY">>, <<4, "PKG_COMPILED_IN">>, <<5, "PKG_FOR_DIFFING">>, <<6, "PKG_EDITOR_ONLY">>,
  <<7, "PKG_DEVELOPER">>, <<8, "PKG_UNCOOKED_ONLY">>, <<9, "PKG_COOKED">>, <<10, "PKG_CONTAINS_NO_ASSET">>, <<13, "PKG_UNVERSIONED_PROPERTIES">>,
  <<14, "PKG_CONTAINS_MAP_DATA">>, <<16, "PKG_COMPILING">>, <<17, "PKG_CONTAINS_MAP">>, <<18, "PKG_REQUIRES_LOCALIZATION_GATHER">>, <<20, "PKG_PLAY_IN_EDITOR">>,
  <<21, "PKG_CONTAINS_SCRIPT">>, <<22, "PKG_DISALLOW_EXPORT">>, <<28, "PKG_DYNAMIC_IMPORTS">>, <<29, "PKG_RUNTIME_GENERATED">>, <<30, "PKG_RELOADING_FOR_COOKER">>,
  <<31, "PKG_FILTER_EDITOR_ONLY">>>>
PropertyFlags == <<
  <<0, "CPF_EDIT">>, <<1, "CPF_CONST_PARM">>, <<2, "CPF_BLUEPRINT_VISIBLE">>, <<3, "CPF_EXPORT_OBJECT">>, <<4, "CPF_BLUEPRINT_READ_ONLY">>, <<5, "CPF_NET">>,
  <<6, "CPF_EDIT_FIXED_SIZE">>, <<7, "CPF_PARM">>, <<8, "CPF_OUT_PARM">>, <<9, "CPF_ZERO_CONSTRUCTOR">>, <<10, "CPF_RETURN_PARM">>, <<11, "CPF_DISABLE_EDIT_ON_TEMPLATE">>,
  <<13, "CPF_TRANSIENT">>, <<14, "CPF_CONFIG">>, <<16, "CPF_DISABLE_EDIT_ON_INSTANCE">>, <<17, "CPF_EDIT_CONST">>, <<18, "CPF_GLOBAL_CONFIG">>,
  <<19, "CPF_INSTANCED_REFERENCE">>, <<21, "CPF_DUPLICATE_TRANSIENT">>, <<24, "CPF_SAVE_GAME">>, <<25, "CPF_NO_CLEAR">>, <<27, "CPF_REFERENCE_PARM">>,
  <<28, "CPF_BLUEPRINT_ASSIGNABLE">>, <<29, "CPF_DEPRECATED">>, <<30, "CPF_IS_PLAIN_OLD_DATA">>, <<31, "CPF_REP_SKIP">>, <<32, "CPF_REP_NOTIFY">>, <<33, "CPF_INTERP">>,
  <<34, "CPF_NON_TRANSACTIONAL">>, <<35, "CPF_EDITOR_ONLY">>, <<36, "CPF_NO_DESTRUCTOR">>, <<38, "CPF_AUTO_WEAK">>, <<39, "CPF_CONTAINS_INSTANCED_REFERENCE">>,
  <<40, "CPF_ASSET_REGISTRY_SEARCHABLE">>, <<41, "CPF_SIMPLE_DISPLAY">>, <<42, "CPF_ADVANCED_DISPLAY">>, <<43, "CPF_PROTECTED">>, <<44, "CPF_BLUEPRINT_CALLABLE">>,
  <<45, "CPF_BLUEPRINT_AUTHORITY_ONLY">>, <<46, "CPF_TEXT_EXPORT_TRANSIENT">>, <<47, "CPF_NON_P_I_E_DUPLICATE_TRANSIENT">>, <<48, "CPF_EXPOSE_ON_SPAWN">>,
  <<49, "CPF_PERSISTENT_INSTANCE">>, <<50, "CPF_U_OBJECT_WRAPPER">>, <<51, "CPF_HAS_GET_VALUE_TYPE_HASH">>, <<52, "CPF_NATIVE_ACCESS_SPECIFIER_PUBLIC">>,
  <<53, "CPF_NATIVE_ACCESS_SPECIFIER_PROTECTED">>, <<54, "CPF_NATIVE_ACCESS_SPECIFIER_PRIVATE">>, <<55, "CPF_SKIP_SERIALIZATION">>>>
ClassFlags == <<
  <<0, "CLASS_ABSTRACT">>, <<1, "CLASS_DEFAULT_CONFIG">>, <<2, "CLASS_CONFIG">>, <<3, "CLASS_TRANSIENT">>, <<4, "CLASS_PARSED">>, <<5, "CLASS_MATCHED_SERIALIZERS">>,
  <<6, "CLASS_PROJECT_USER_CONFIG">>, <<7, "CLASS_NATIVE">>, <<8, "CLASS_NO_EXPORT">>, <<9, "CLASS_NOT_PLACEABLE">>, <<10, "CLASS_PER_OBJECT_CONFIG">>,
  <<11, "CLASS_REPLICATION_DATA_IS_SET_UP">>, <<12, "CLASS_EDIT_INLINE_NEW">>, <<13, "CLASS_COLLAPSE_CATEGORIES">>, <<14, "CLASS_INTERFACE">>,
  <<15, "CLASS_CUSTOM_CONSTRUCTOR">>, <<16, "CLASS_CONST">>, <<17, "CLASS_LAYOUT_CHANGING">>, <<18, "CLASS_COMPILED_FROM_BLUEPRINT">>, <<19, "CLASS_MINIMAL_A_P_I">>,
  <<20, "CLASS_REQUIRED_A_P_I">>, <<21, "CLASS_DEFAULT_TO_INSTANCED">>, <<22, "CLASS_TOKEN_STREAM_ASSEMBLED">>, <<23, "CLASS_HAS_INSTANCED_REFERENCE">>,
  <<24, "CLASS_HIDDEN">>, <<25, "CLASS_DEPRECATED">>, <<26, "CLASS_HIDE_DROP_DOWN">>, <<27, "CLASS_GLOBAL_USER_CONFIG">>, <<28, "CLASS_INTRINSIC">>,
  <<29, "CLASS_CONSTRUCTED">>, <<30, "CLASS_CONFIG_DO_NOT_CHECK_DEFAULTS">>, <<31, "CLASS_NEWER_VERSION_EXISTS">>>>
FunctionFlags == <<
  <<0, "FUNC_FINAL">>, <<1, "FUNC_REQUIRED_API">>, <<2, "FUNC_BLUEPRINT_AUTHORITY_ONLY">>, <<3, "FUNC_BLUEPRINT_COSMETIC">>, <<6, "FUNC_NET">>, <<7, "FUNC_NET_RELIABLE">>,
  <<8, "FUNC_NET_REQUEST">>, <<9, "FUNC_EXEC">>, <<10, "FUNC_NATIVE">>, <<11, "FUNC_EVENT">>, <<12, "FUNC_NETRESPONSE">>, <<13, "FUNC_STATIC">>, <<14, "FUNC_NETMULTICAST">>,
  <<15, "FUNC_UBERGRAPHFUNCTION">>, <<16, "FUNC_MULTICASTDELEGATE">>, <<17, "FUNC_PUBLIC">>, <<18, "FUNC_PRIVATE">>, <<19, "FUNC_PROTECTED">>, <<20, "FUNC_DELEGATE">>,
  <<21, "FUNC_NETSERVER">>, <<22, "FUNC_HASOUTPARMS">>, <<23, "FUNC_HASDEFAULTS">>, <<24, "FUNC_NETCLIENT">>, <<25, "FUNC_DLLIMPORT">>, <<26, "FUNC_BLUEPRINTCALLABLE">>,
  <<27, "FUNC_BLUEPRINTEVENT">>, <<28, "FUNC_BLUEPRINTPURE">>, <<29, "FUNC_EDITORONLY">>, <<30, "FUNC_CONST">>, <<31, "FUNC_NETVALIDATE">>>>
StructFlags == <<
  <<1, "IDENTICAL_NATIVE">>, <<2, "HAS_INSTANCED_REFERENCE">>, <<3, "NO_EXPORT">>, <<4, "ATOMIC">>, <<5, "IMMUTABLE">>, <<6, "ADD_STRUCT_REFERENCED_OBJECTS">>,
  <<9, "REQUIRED_API">>, <<10, "NET_SERIALIZE_NATIVE">>, <<11, "SERIALIZE_NATIVE">>, <<12, "COPY_NATIVE">>, <<13, "IS_PLAIN_OLD_DATA">>, <<14, "NO_DESTRUCTOR">>,
  <<15, "ZERO_CONSTRUCTOR">>, <<16, "EXPORT_TEXT_ITEM_NATIVE">>, <<17, "IMPORT_TEXT_ITEM_NATIVE">>, <<18, "POST_SERIALIZE_NATIVE">>, <<19, "SERIALIZE_FROM_MISMATCHED_TAG">>,
  <<20, "NET_DELTA_SERIALIZE_NATIVE">>, <<21, "POST_SCRIPT_CONSTRUCT">>, <<22, "NET_SHARED_SERIALIZATION">>, <<23, "TRASHED">>>>
\* none, one or two flags of a table; w bytes
FlagsA(x, w, tab, of) ==
  LET i == Nat2(Sub(x, 1), Len(tab)) + 1
      j == Nat2(Sub(x, 2), Len(tab)) + 1
      lo == IF i < j THEN i ELSE j
      hi == IF i < j THEN j ELSE i
      free == CHOOSE f \in 0..(8 * w) : \A k \in DOMAIN tab : tab[k][1] # f          \* a bit without a meaning, 8w if there is none
      T(v) == <<[t |-> "bits", w |-> w, v |-> v, free |-> free]>> IN
  IF Flip(Sub(x, 3), 8) THEN [toks |-> T(<<>>), view |-> [bits |-> 0, of |-> of]]
  ELSE IF lo = hi \/ Flip(Sub(x, 4), 3) THEN [toks |-> T(<<tab[lo][1]>>), view |-> tab[lo][2]]
  ELSE [toks |-> T(<<tab[lo][1], tab[hi][1]>>), view |-> tab[lo][2] \o " | " \o tab[hi][2]]
=============================================================================

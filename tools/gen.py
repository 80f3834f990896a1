#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "A pak file gives back exactly the entries that were stored in it",
 "For every pak version documented as writable, every set of named entries and every choice of compression and block size, reopening the written pak yields the same mount point, the same entry names and byte-identical contents for each entry. The same holds for any well-formed pak of a readable version (including the hashed-index versions) laid out by another tool.",
 ["inputs", "configurations"], "all writable versions x entry sets (empty, sub-threshold, exact multiples of the block size, incompressible, unicode names) x compression flags x block sizes; all readable layouts incl. versions 10 and 11",
 "There are no tests for the pak crate at all; the repository only carries four sample paks.",
 ["unreal_pak/src/header.rs", "unreal_pak/src/index.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/compression.rs", "unreal_pak/src/pakversion.rs"],
 [("entry header encode/decode", "unreal_pak/src/header.rs Header::{read,write,read_encoded,calculate_header_len}"),
  ("index and footer encode/decode", "unreal_pak/src/index.rs Index, Footer"),
  ("block compression", "unreal_pak/src/entry.rs read_entry/write_entry")],
 ["PakWriter::finish_write bytes", "PakReader::{load_index,get_entry_names,read_entry,iter}", "PakMemory::load_from"])

prop("C02", "Pak containers behave as a name-to-bytes map under any call history",
 "Under any sequence of stores, lookups, listings, loads and saves, the in-memory pak answers exactly as a sorted map from names to bytes: the last value stored under a name wins, loading merges the file's entries, and a save followed by a load reproduces the map. The streaming writer accepts each name once, rejects a second write of the same name and configurations its version cannot express with an error, and a rejected call leaves the final archive as if it had not been made.",
 ["histories", "inputs"], "all call sequences over a small set of names, contents and versions, and long random ones",
 "No existing test exercises the containers; ordering and replacement behaviour depends on the whole call history.",
 ["unreal_pak/src/pakmemory.rs", "unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakreader.rs"],
 [("entry map", "unreal_pak/src/pakmemory.rs PakMemory::{set_entry,load,write}"), ("double-write guard", "unreal_pak/src/pakwriter.rs PakWriter::write_entry")],
 ["return values and entry listings of PakMemory, PakWriter and PakReader"])

prop("C03", "A damaged pak is reported as an error and never crashes the reader",
 "Opening, listing and extracting from a pak that was truncated at any byte or whose structural fields (magic, version, offsets, sizes, counts, compression method) were altered ends with an error or with data, never with a panic, an abort or an attempt to allocate memory out of proportion to the file. Damage confined to one entry's own header or data leaves the pak readable and every other entry intact.",
 ["inputs", "fault_sequences"], "every truncation point and every single structural-field corruption of spec-generated paks, all readable versions",
 "No test feeds the reader a malformed pak.",
 ["unreal_pak/src/index.rs", "unreal_pak/src/header.rs", "unreal_pak/src/entry.rs", "unreal_helpers/src/read_ext.rs"],
 [("error propagation", "unreal_pak/src/index.rs Footer::read, Index::read"), ("entry validation", "unreal_pak/src/entry.rs read_entry")],
 ["PakReader::load_index/read_entry result and process survival"])

prop("C04", "Packing a directory and extracting it reproduces the directory",
 "For every directory tree of regular files (with Unicode names free of backslashes), creating a pak from it with the command-line tool and extracting that pak yields the same relative paths with the same contents, with and without compression. Extraction never creates or changes a file outside the chosen output directory, whatever entry names the pak contains. The check command accepts every pak the tool creates and rejects one whose entry data is damaged.",
 ["inputs"], "directory trees of bounded depth with empty, small and large files; hostile entry names",
 "The command-line tool has no tests.",
 ["unreal_pak_cli/src/main.rs"],
 [("directory walk and naming", "unreal_pak_cli/src/main.rs create"), ("output path construction", "unreal_pak_cli/src/main.rs extract")],
 ["file tree produced by the unreal_pak binary"])

prop("C05", "The insertion-ordered map stays consistent under any operation history",
 "After any sequence of insertions, overwrites, removals by key or by position, in-place edits and entry-style operations, every view of the insertion-ordered map (length, lookup by key, lookup by insertion index, ordered and reversed iteration, keys, values, equality, clones) describes the same sequence of live entries. Live entries keep their relative insertion order, overwriting keeps an entry's place, insertion indices of live entries are unique and unchanged by other operations, and removing returns exactly the removed entry.",
 ["histories"], "all operation sequences over few keys to a fixed depth, and long random sequences over more keys",
 "The five unit tests perform straight-line inserts and a single removal; the broken states need interleaved removals and insertions.",
 ["unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs", "unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs"],
 [("slab + key map + index map kept in step", "indexed_map/mod.rs internal_insert, remove_by_store_place"), ("entry API", "indexed_map/entry.rs")],
 ["all public accessors after each operation"])

prop("C06", "A split asset stream reads like one contiguous file",
 "Two byte sources presented as one stream behave, under any interleaving of seeks (absolute, relative, from the end) and reads of any size, exactly like a single source holding the concatenated bytes: same bytes, same positions, same end-of-file and the same rejection of seeks before the start.",
 ["histories", "inputs"], "all seek/read sequences to a fixed depth over small part lengths (including empty parts and an absent second part), and long random ones",
 "Existing tests only read assets front to back; seeks that cross the boundary backwards are never made.",
 ["unreal_asset/unreal_asset_base/src/containers/chain.rs"],
 [("position bookkeeping across the two parts", "containers/chain.rs Read and Seek impls")],
 ["bytes and positions returned by the chained reader"])

prop("C07", "Name tables resolve every name handed out back to the same text",
 "Under any history of additions, forced duplicates, look-ups, renames and copies of the table, an index handed out for a text resolves to that text until the entry is deliberately renamed, adding a text that is present returns an existing index without growing the table, and look-up never returns an index whose text differs from the one asked for. Numbered names keep their number; two names of one table are equal exactly when table position and number agree, two names without a table exactly when text and number agree, equal names hash equally, and comparing a name with a text compares the text.",
 ["histories"], "all operation sequences over few texts to a fixed depth, and long random ones",
 "Tests never rename, duplicate or rebuild a name table.",
 ["unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/unreal_asset_base/src/types/fname.rs"],
 [("hash lookup + index list", "containers/name_map.rs"), ("FName content and equality", "types/fname.rs")],
 ["name map accessors and FName content"])

prop("C08", "Import and export references resolve to the object they denote",
 "A package index that is negative denotes exactly the import with that ordinal, a positive one exactly the export with that ordinal and zero denotes nothing; adding an import returns an index that resolves to it and leaves all earlier indices unchanged, searching returns the index of an import whose every given attribute matches (names compared by their text) or reports absence, and out-of-range references yield absence rather than a wrong object or a crash.",
 ["histories", "inputs"], "all sequences of additions, searches and look-ups over small import tables including out-of-range and extreme indices",
 "Existing tests only look up a few valid references in fixed assets.",
 ["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/types/mod.rs", "unreal_asset/src/asset_data.rs"],
 [("index arithmetic", "Asset::{get_import,get_export,get_export_mut,add_import,find_import,find_import_no_index}"), ("package index sign convention", "types/mod.rs PackageIndexTrait")],
 ["values returned by the look-up functions"])

prop("C09", "Reading an asset and writing it back changes nothing",
 "For every well-formed asset of a supported engine version, single-file or split into header and bulk part, loading and saving without edits reproduces the original bytes of both parts, including dependency, preload, thumbnail-free header and trailing data. This covers every header variation the declared versions imply.",
 ["inputs", "configurations"], "header layouts for all engine versions the library enumerates x presence of each optional table x split or single file",
 "The tests round-trip about thirty fixed files of a handful of engine versions.",
 ["unreal_asset/src/asset.rs", "unreal_asset/src/package_file_summary.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/src/fengineversion.rs"],
 [("header parse and write", "asset.rs parse_header/write_header"), ("section writing and back-patching", "asset.rs write_data")],
 ["bytes of write_data vs the input"])

prop("C10", "An edit to an asset survives saving and changes only what it edited",
 "After any sequence of edits (property values, added, removed or reordered properties and elements of the lists inside objects, added or removed exports, imports, names, reference lists, header fields) saving and reloading an asset yields exactly the edited document: edited parts carry the new values and everything else, including references between objects, is what it was before. The same holds for objects moved in from another asset once the name table was rebuilt. The name table only ever grows, by the names that are needed.",
 ["histories"], "all edit sequences to a fixed depth and long random ones over documents with several exports, each followed by save and reload",
 "Existing tests never edit an asset and reload it.",
 ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_archive_writer.rs", "unreal_asset/unreal_asset_exports/src/normal_export.rs"],
 [("document model", "asset.rs Asset"), ("export writing", "asset.rs write_data")],
 ["document obtained by reloading the saved bytes"])

prop("C11", "A saved asset's table of contents points at what was written",
 "In every saved asset, whatever edits preceded the save, each section offset, count and size recorded in the header and each object's recorded position and size delimit exactly the bytes of that section or object, sections do not overlap and leave no unaccounted bytes, and the recorded header length equals the length of the header part.",
 ["histories", "configurations"], "edit histories x engine versions x split or single file",
 "A loader that tolerates wrong offsets hides them; no test inspects the saved layout after an edit.",
 ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs"],
 [("offset back-patching", "asset.rs write_data")],
 ["independent layout walk over the saved bytes"])

prop("C12", "Every tagged property value is read and written faithfully",
 "For every supported property type (primitive, name, string, text, reference, enumeration, delegate, struct with its own property list or with a native layout, array, set and map of these), nesting and engine version, the bytes of a tagged property decode to the value they encode (right type, name, duplication index, optional identifier and payload), encoding that value reproduces the bytes, and every recorded payload length equals the payload actually written.",
 ["inputs", "configurations"], "grammar-generated property trees: every type x version threshold x container nesting x boundary values",
 "Tests see only the property shapes that occur in the fixed sample assets.",
 ["unreal_asset/unreal_asset_properties/src"],
 [("type dispatch", "unreal_asset_properties/src/lib.rs Property::{new,from_type,write}"), ("per-type codecs", "unreal_asset_properties/src/*.rs")],
 ["decoded property and re-encoded bytes"])

prop("C13", "Blueprint bytecode is read and written faithfully",
 "Every bytecode expression of the engine versions whose scripts are decoded (4.16 and later), however nested, decodes to the instruction and operands it encodes and encodes back to the same bytes, code and jump offsets are carried as stored, and the in-memory code size the library records is the sum of the instruction sizes the engine uses. Scripts of earlier versions are kept as they are. (Inline-event instrumentation and narrow strings outside ASCII are excluded.)",
 ["inputs", "programs"], "grammar-generated expression trees over every opcode, both property-pointer formats and both script-size eras",
 "Only the opcodes that occur in the sample assets are ever decoded.",
 ["unreal_asset/unreal_asset_kismet/src/lib.rs", "unreal_asset/unreal_asset_exports/src/struct_export.rs"],
 [("opcode dispatch and codecs", "unreal_asset_kismet/src/lib.rs"), ("script size back-patching", "struct_export.rs")],
 ["decoded expression, re-encoded bytes, returned size"])

prop("C14", "Content the library does not understand is preserved verbatim",
 "Objects whose content cannot be interpreted (it ends early, uses names outside the name table, impossible element counts or string lengths, enumerators or flags without a meaning, an object guid or an unresolvable class), properties of unknown types, bytecode that cannot be decoded and bytes after the known content are kept as opaque data and written back unchanged without a crash, their presence does not disturb the parsing of neighbouring objects, and an object is opaque only if its content really could not be interpreted.",
 ["inputs", "fault_sequences"], "documents in which any subset of objects carries unknown types, trailing bytes, malformed bodies or undecodable bytecode",
 "The sample assets parse completely, so the fallback paths are not reached.",
 ["unreal_asset/src/asset_data.rs", "unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_exports/src/raw_export.rs", "unreal_asset/unreal_asset_properties/src/unknown_property.rs"],
 [("raw fallback", "asset.rs read_export"), ("extras", "asset.rs read_export_no_raw")],
 ["export variants and re-saved bytes"])

prop("C15", "An asset registry reads back exactly what was written",
 "For every registry format version the library reads (4 and up; formats from 8 on with the names given to the reader), loading a registry reports every asset record, tag, dependency with its kind and flags, and package record that is stored, and saving it reproduces the stored bytes; dependencies stored with flags are hard when their flags say so and are kept hard ones first, each kind and the other lists ordered by node, with every dependency keeping its own flags. What is changed through the public fields (records, tags, names, dependencies) is exactly what changes in the saved registry. A cut off registry, or one with a dependency index outside the registry or an impossible count, is refused with an error. Tag stores and asset bundles are read as stored, and bundles written back unchanged.",
 ["inputs", "configurations", "histories"], "generated registry states x format versions x edit histories; damaged registries",
 "The registry has no tests.",
 ["unreal_asset/unreal_asset_registry/src"],
 [("state read/write", "unreal_asset_registry/src/lib.rs"), ("dependency nodes", "objects/depends_node.rs"), ("tag store", "objects/store.rs"), ("package records", "objects/asset_package_data.rs")],
 ["decoded state and re-encoded bytes", "edits, saved and loaded again", "refusal of damaged registries"])

prop("C16", "Unversioned mappings resolve each property to its schema slot",
 "A mappings file, plain or compressed with brotli or zstandard, is decoded to exactly the versions, names, enums, struct schemas (slots, array elements, nested types) and module paths it declares, and a damaged one (cut off, impossible index, count, size, type or text) is refused without a crash. Look-up of a property by name and array index finds the nearest declaring type along the inheritance chain together with its global index, falls back to the enclosing property, and always ends. The header of an unversioned property list decodes to exactly the present and the zero slots and is written back unchanged; reading the list yields exactly those slots in order, each with the name, type and array index its schema gives it and the value that is stored, for values of every type. (Writing unversioned property lists is unfinished in the library and not claimed.)",
 ["inputs"], "generated mappings with inheritance (also dangling and circular), arrays and nested types, every damage; every choice of absent, stored and zero slots of small types at distances up to 600 slots",
 "No test loads a mappings file or reads an unversioned list.",
 ["unreal_asset/unreal_asset_base/src/unversioned", "unreal_asset/unreal_asset_properties/src/lib.rs"],
 [("mappings parser and look-up", "unversioned/mod.rs Usmap"), ("header codec", "unversioned/header.rs"), ("slot walk", "unreal_asset_properties/src/lib.rs Property::new")],
 ["decoded schemas, look-up results, slot sequence", "bytes of the header written back", "refusal of damaged mappings"])

prop("C17", "Primitive encodings are inverse and bounded",
 "Strings up to the reader's limit of 131072 units (empty, narrow, wide, absent), booleans, identifiers and counted arrays decode to the value that was encoded, writing a string reports the number of bytes written, reading consumes exactly those bytes, and truncated, over-long or otherwise malformed input is rejected with an error, never a crash or an outsized allocation. The textual form of an identifier parses back to the same identifier, its integer and byte views agree, and text that is no identifier is refused.",
 ["inputs"], "all value classes and boundary lengths, all malformed length prefixes and truncations",
 "Unit tests cover a few literal values.",
 ["unreal_helpers/src/read_ext.rs", "unreal_helpers/src/write_ext.rs", "unreal_helpers/src/guid.rs"],
 [("string codec", "read_ext.rs/write_ext.rs"), ("identifier text codec", "guid.rs")],
 ["values and stream positions"])

prop("C18", "Game-specific scrambling is its own inverse and keyed by file name",
 "For every ASCII file name (in any letter case) and every length of the header part (at least its four byte marker) and of the bulk part, scrambling replaces the marker and combines each following byte, across both parts, with the key table cell that the name's phase plus the byte's position selects; unscrambling under the same name gives back the original bytes, and processing the two parts one after the other with one key gives the same result as processing them together.",
 ["inputs"], "all small lengths, key phases and split points",
 "Tests decrypt one fixed asset pair.",
 ["unreal_asset/src/ac7.rs"],
 [("key stream", "ac7.rs")],
 ["bytes before and after"])

prop("C19", "Mod metadata of every accepted schema means the same mod",
 "Metadata of each accepted schema version decodes to the declared fields, an older schema is upgraded without losing or inventing information, an unknown schema or malformed document is rejected with an error and never a crash, and encoding and re-decoding preserves the mod.",
 ["inputs"], "generated documents over all optional-field combinations, schema versions and malformed field values",
 "Tests parse a handful of literal documents.",
 ["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v1.rs", "unreal_mod_metadata/src/v2.rs"],
 [("schema dispatch and upgrade", "unreal_mod_metadata/src/lib.rs from_slice")],
 ["decoded metadata"])

prop("C20", "Engine, object and custom versions map consistently and monotonically",
 "Each engine version maps to one pair of object versions and to one value per custom version container, later engine versions never map to smaller values, guessing the engine version from stored object and custom versions returns a version consistent with all of them, and a container stored in a file overrides the default exactly for that container.",
 ["inputs", "configurations"], "all engine versions x all custom version containers x stored-container subsets",
 "No test looks at the version tables.",
 ["unreal_asset/unreal_asset_base/src/engine_version.rs", "unreal_asset/unreal_asset_base/src/custom_version.rs", "unreal_asset/unreal_asset_base/src/object_version.rs"],
 [("version tables", "engine_version.rs, custom_version.rs"), ("look-up", "archive_trait.rs get_custom_version")],
 ["values returned by the version queries"])

prop("C21", "Dependency resolution picks mutually compatible mod versions",
 "However mods are added to the dependency graph (in any batches, with any dependencies, cyclic and self dependencies included), each mod is resolved to the newest of the release versions it was first added with that satisfies every requirement placed on it by any mod; a mod that was not added, or has no such version, is left unresolved and reported with exactly the (mod, requirement) pairs placed on it. Adding a batch returns for each dependency it names exactly the places given so far to fetch it from, and a requirement equivalent to all placed on it; the dependents listed for a mod are exactly the mods that placed a requirement on it, with those requirements. Nothing crashes or fails to terminate.",
 ["inputs", "histories"], "every history of two single-mod batches over two mods; pseudo random histories of four batches over six mods with every form of requirement",
 "The resolver has no tests.",
 ["unreal_mod_manager/src/mod_processing/dependencies.rs", "unreal_mod_manager/src/error.rs"],
 [("dependency graph", "dependencies.rs DependencyGraph::{add_mods,validate_graph,find_mod_dependents,find_mod_dependents_with_version}")],
 ["resolution result, warnings, fetch list and listed dependents"])

prop("C22", "Integration reads the most recent version of an asset and writes it back whole",
 "When an asset is requested for integration, the already-integrated copy takes precedence over a mod's copy, which takes precedence over the game's (among several paks of mods or of the game, the first in the list that has it); header and bulk part always come from the same source, so a split header whose bulk part is missing is an error and is never completed from elsewhere; storing an asset makes the stored bytes the ones later requests see and changes nothing else. Each name is stored in one form, split or unsplit, and dots in directories or file names do not matter.",
 ["histories", "inputs"], "all presence combinations across the three layers with up to two paks each, and store/read sequences to a fixed depth",
 "The integrator has no tests.",
 ["unreal_mod_integrator/src/helpers.rs"],
 [("layered look-up", "unreal_mod_integrator/src/helpers.rs get_asset, read_asset, write_asset")],
 ["bytes of the asset returned"])

prop("C23", "Specialised exports are read and written faithfully",
 "Structs, classes, functions, enums, string tables, data tables, levels, worlds and property objects (of the property kinds the library names, inline or as objects of their own) of every supported engine version decode to the declared members, flags and references, in the declared order, and encode back to the same bytes.",
 ["inputs", "configurations"], "grammar-generated exports of each kind x version threshold",
 "Only the shapes in the sample assets are exercised.",
 ["unreal_asset/unreal_asset_exports/src"],
 [("per-kind codecs", "unreal_asset_exports/src/*.rs")],
 ["export variant, fields and re-saved bytes"])

prop("C24", "Path and bit-range helpers are exact",
 "Converting a game path (ordinary components below /Game/) gives the game's content directory followed by the same components, with the asset extension added exactly when the last component has none, for any game name; every path that does not start with /Game/ is refused. Copying a bit range changes exactly the bits of the destination range to those of the source range, bits past the end of the source counting as unset.",
 ["inputs"], "all ranges over small bit vectors; all path shapes over a small alphabet",
 "Unit tests check a few literals.",
 ["unreal_helpers/src/path.rs", "unreal_helpers/src/bitvec_ext.rs"],
 [("path conversion", "path.rs"), ("bit copy", "bitvec_ext.rs")],
 ["returned strings and bits"])

prop("C25", "The mod library follows the mods folder and its settings",
 "Whatever the mods folder holds and in whatever order the manager is started, stopped, given files to import, told to remove, switch or pin mods, trust libraries, remember selections and save: every sound mod file (named <3 digits>-<Id>-<major.minor.patch>_P.pak, with readable metadata of that id and version) is known afterwards under its id and version with its mod's data, every unsound one is reported with the kind of fault and no mod is made of it; an unpinned mod follows the newest version known, or the one its index file names when that is available; versions offered by an index file are known with their address, entries whose file name is not that of this mod and version and unusable index files are reported; importing copies the files into the folder (unsound ones are dropped again), a file that already lies there is left as it is, and nothing else in the folder changes; removing a mod removes exactly its files; enabled flags, pinned versions, remembered selections, trusted libraries and options come back after a restart, also from settings of earlier layouts, settings of mods or versions that are gone are passed over, and unreadable settings count as none; the manager never stops responding and says it is idle once it is.",
 ["inputs", "history"], "pseudo random worlds of five mods with up to five releases each, index files in every condition, faulty files of nine kinds; histories of 12 steps",
 "No test runs the manager; the interplay of files, index files, versions and settings over a history is unbounded.",
 ["unreal_mod_manager/src/mod_processing", "unreal_mod_manager/src/mod_config.rs", "unreal_mod_manager/src/background_work.rs", "unreal_mod_manager/src/profile.rs"],
 [("reading mod files", "mod_processing/pakfile_reading.rs"), ("index files", "mod_processing/index_file.rs"), ("picking versions", "mod_processing/version_handling.rs"), ("settings", "mod_config.rs load_config, write_config"), ("messages", "background_work.rs background_work")],
 ["mods known, warnings, mods folder, modconfig.json after every step"])

prop("C26", "An integration run installs and lists exactly the enabled mods and what they need",
 "A run of the integrator leaves in the paks folder exactly: the selected version of every enabled mod (fetched first if it is not there), for every dependency that is not enabled the newest version that all requirements accept (fetched from its index file and enabled), the mods that come with the manager when they are core or depended on and not replaced by an enabled mod of the same id, and the integrator's own pak; nothing when no mod is enabled. The integrator's pak lists each of these mods once, by priority, with the name, author, description, version, game build, sync mode and home page of its metadata, hands each one's integrator data to the handler in the same order, and carries the integrator version and the connection option. Dependencies nobody offers are reported with who requires them; mods with native libraries that the user does not trust are reported; file names from index files are only used when they name a file of that mod and version, so nothing is written outside the manager's folders; a mod file that cannot be fetched, or is not what its name says, is reported, neither stored nor installed, and the rest of the run is not affected; the run ends for every shape of dependencies, cycles included; afterwards the settings are saved.",
 ["inputs", "history"], "as C25, with histories of mostly integration runs",
 "No test runs the manager or the integrator; graphs of dependencies, versions and index files are unbounded.",
 ["unreal_mod_manager/src/background_work.rs", "unreal_mod_integrator/src/lib.rs"],
 [("integration run", "background_work.rs BackgroundThreadMessage::Integrate"), ("list of mods", "unreal_mod_integrator/src/lib.rs integrate_mods, bake_mod_data, bake_integrator_data")],
 ["files in the paks folder, contents of the integrated pak, warnings, settings"])

CLAIMED = json.load(open(os.path.join(V, "tools", "claims.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    c = CLAIMED.get(p["id"])
    if c and "reason" not in c:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=p["id"], reason=(c or {}).get("reason", "check under construction")))
m = dict(version=1, setup_cmd="python3 run.py setup",
  hooks=dict(guard="none", enable="no hooks are needed: the checks use public APIs, and #[path] includes of source files from harness crates in /verif", source_commits=[]),
  checks=checks, not_applicable=na,
  notes="TLA+ specifications in specs/, checked with TLC; Rust conformance harness in harness/; driver run.py. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")

"""One function per property. Each: (1) model-checks the specification, (2) replays behaviours the
specification generates into the real code, (3) validates histories recorded from the real code."""
import json, os
import vlib
CHECKS = {}
def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d

@check("C05")
def c05(c):
    c.bin = vlib.build()
    K, Vs = {"a", "b", "c"}, {1, 2}
    base = dict(Keys=K, Vals=Vs, MaxIdx=c.pick(4, 5))
    # design: exhaustive over states (history hidden)
    c.tlc("IndexedMapMC", dict(base, Depth=0, Emit=False), spec="MCSpec", invs=["KeysUnique", "IdxIncreasing"], props=["StepProps"], constraint="Bound", view="View")
    # every history to depth 3 (4) over two keys
    f = c.path("tree.ndjson")
    c.tlc("IndexedMapMC", dict(Keys={"a", "b"} , Vals={1}, MaxIdx=2, Depth=c.pick(4, 5), Emit=True), spec="MCSpec", invs=["Out"], extra_env={"OUT": f}, heap="8g")
    g = c.path("sim.ndjson")
    c.tlc("IndexedMapMC", dict(Keys={"a", "b", "c", "d", "e"}, Vals=Vs, MaxIdx=8, Depth=c.pick(24, 40), Emit=True), spec="MCSpec", invs=["Out"],
          simulate=c.pick(1500, 20000), depth=c.pick(26, 42), workers=1, extra_env={"OUT": g})
    for x in (f, g):
        r = c.run("imap", "replay", x)
        if r: c.traces += r["cases"]
        c.sample_file(x)
    # code -> spec
    t = c.path("drive.ndjson")
    out = vlib.harness(c.bin, "imap", "drive", vlib.SEED, c.pick(40, 200), c.pick(60, 120))
    if out.returncode != 0: raise vlib.ToolError(out.stderr)
    open(t, "w").write(out.stdout)
    n = c.validate("IndexedMapTrace", t, consts=dict(Keys={"a"}, Vals={1}, MaxIdx=0), key="imap:trace")
    c.traces += c.pick(40, 200); c.info["recorded_events_validated"] = n

@check("C06")
def c06(c):
    c.bin = vlib.build()
    c.tlc("ChainMC", dict(MaxL=4, Depth=0, Emit=False), spec="MCSpec", invs=["PosNat"], props=["ReadInside"], constraint="Bound")
    f, g, t = c.path("tree.ndjson"), c.path("sim.ndjson"), c.path("drive.ndjson")
    c.tlc("ChainMC", dict(MaxL=2, Depth=c.pick(3, 4), Emit=True), spec="MCSpec", invs=["Out"], extra_env={"OUT": f}, heap="12g")
    c.tlc("ChainMC", dict(MaxL=9, Depth=c.pick(30, 50), Emit=True), spec="MCSpec", invs=["Out"], simulate=c.pick(1500, 15000), depth=c.pick(33, 53), workers=1, extra_env={"OUT": g})
    for x in (f, g):
        r = c.run("chain", "replay", x)
        if r: c.traces += r["cases"]
        c.sample_file(x)
    out = vlib.harness(c.bin, "chain", "drive", vlib.SEED, c.pick(60, 300), c.pick(60, 120))
    if out.returncode != 0: raise vlib.ToolError(out.stderr)
    open(t, "w").write(out.stdout)
    c.info["recorded_events_validated"] = c.validate("ChainTrace", t, key="chain:trace")
    c.traces += c.pick(60, 300)

def gen(c, name, module, consts, **kw):
    """run a generator model; returns the path of the emitted cases"""
    f = c.path(name + ".ndjson")
    open(f, "w").close()
    if module in ("AssetMC", "PropsMC", "ExportsMC", "KismetMC"): consts = {"Hows": {"un", "ver", "ver0"}, **({"Ops": {""}} if module in ("PropsMC", "ExportsMC") else {}), **consts}
    ee = dict(kw.pop("extra_env", {})); ee["OUT"] = f
    c.tlc(module, consts, extra_env=ee, **kw)
    return f

def replay(c, f, *args):
    r = c.run(*args)
    if r: c.traces += r["cases"]; c.info.setdefault("harness_steps", 0); c.info["harness_steps"] += r["steps"]
    if r and r.get("stats"): c.info.setdefault("observed", {}); [c.info["observed"].__setitem__(k, c.info["observed"].get(k, 0) + v) for k, v in r["stats"].items()]
    c.sample_file(f)
    return r

def sharded(c, name, module, consts, *cmds, shards=7, over="Engs", **kw):
    """generate with one single-threaded TLC per group of engine versions (seeds), replay each group's cases with every command;
    a command is a name or a function of the file giving the arguments"""
    from concurrent.futures import ThreadPoolExecutor
    engs = sorted(consts[over])
    groups = [g for g in (set(engs[k::shards]) for k in range(shards)) if g]
    with ThreadPoolExecutor(shards) as ex:
        files = list(ex.map(lambda k: gen(c, f"{name}{k}", module, {**consts, over: groups[k]}, workers=1, heap="3g", **kw), range(len(groups))))
        for cmd in cmds:
            list(ex.map(lambda f: replay(c, f, *(cmd(f) if callable(cmd) else (cmd, f))), files))
    for f in files: os.remove(f)

MP = {"../../../", "", "../../../Gam{00e9}/"}
LENS = [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 131, 132, 192, 200]
@check("C01")
def c01(c):
    c.bin = vlib.build()
    vers = set(range(1, 10))
    conts = {(k, n) for k in "trzmM" for n in LENS}
    one = gen(c, "one", "PakWriterMC", dict(Vers=vers, BSs={64}, Mps={"../../../"}, Rs={1, 6}, Conts=conts, Zs={True, False}, Depth=1), spec="MCSpec", invs=["LayoutOk", "Out"])
    multi = gen(c, "multi", "PakWriterMC", dict(Vers=vers, BSs={33, 64, 65536}, Mps=MP, Rs=set(range(1, 7)), Conts={(k, n) for k in "trm" for n in (0, 31, 32, 64, 65, 200, 1000)}, Zs={True, False}, Depth=5),
                spec="MCSpec", invs=["LayoutOk", "Out"], simulate=c.pick(1500, 12000), depth=8, workers=1)
    big = gen(c, "big", "PakWriterMC", dict(Vers=vers, BSs={65536}, Mps={"../../../"}, Rs={1, 2}, Conts={(k, n) for k in "tr" for n in (65535, 65536, 65537, 131072, 200000)}, Zs={True, False}, Depth=2),
              spec="MCSpec", invs=["Out"], simulate=c.pick(150, 600), depth=5, workers=1)
    for f in (one, multi, big): replay(c, f, "pak", "write", f)
    fo = gen(c, "foreign", "PakForeign", dict(Vers=set(range(1, 12)), BSs={64, 2048, 65536}, Rs=set(range(1, 7)), Conts={(k, n) for k in "trm" for n in (0, 1, 31, 64, 65, 200, 5000)}, MaxE=4),
             spec="FSpec", invs=["LayoutOk", "Out"], simulate=c.pick(6, 60), depth=6, workers=1)
    replay(c, fo, "pak", "foreign", fo)

@check("C02")
def c02(c):
    c.bin = vlib.build()
    vers = set(range(1, 12))
    w = gen(c, "w", "PakWriterMC", dict(Vers=vers, BSs={64}, Mps={"../../../"}, Rs={1, 2}, Conts={("t", 5), ("t", 100)}, Zs={True, False}, Depth=c.pick(3, 4)), spec="MCSpec", invs=["Distinct", "OldNeverZips", "Out"])
    replay(c, w, "pak", "write", w)
    base = dict(Rs={1, 2}, Files={1}, Vers={2, 8, 11}, Conts={("t", 5), ("t", 100)}, Mps={""})
    for z in (False, True):
        c.tlc("PakMemoryMC", dict(base, Depth=0, Emit=False, Zip0=z), spec="MCSpec", invs=["SaveLoadIdentity", "TypeOK"])
        m = gen(c, f"mt{z}", "PakMemoryMC", dict(base, Depth=c.pick(4, 5), Emit=True, Zip0=z), spec="MCSpec", invs=["Out"], heap="10g")
        s = gen(c, f"ms{z}", "PakMemoryMC", dict(Rs=set(range(1, 7)), Files={1, 2, 3}, Vers=vers, Conts={(k, n) for k in "tr" for n in (0, 31, 32, 100, 3000)}, Mps=MP, Depth=c.pick(25, 40), Emit=True, Zip0=z),
                spec="MCSpec", invs=["Out"], simulate=c.pick(300, 3000), depth=c.pick(27, 42), workers=1)
        for f in (m, s): replay(c, f, "pak", "memory", f, int(z))

@check("C03")
def c03(c):
    c.bin = vlib.build()
    f = gen(c, "dmg", "PakDamage", dict(Vers=set(range(1, 12)), BSs={64, 2048}, Rs={1, 3, 5}, Conts={("t", 5), ("t", 150), ("r", 70)}, MaxE=3),
            spec="FSpec", invs=["LayoutOk", "OwnersUnique", "DOut"], simulate=c.pick(3, 24), depth=5, workers=1)
    # one layout per behaviour suffices: keep a bounded sample of distinct documents
    rows = sorted(set(open(f).read().splitlines()))
    import random
    random.Random(vlib.SEED).shuffle(rows)
    rows = rows[:c.pick(250, 3000)]
    open(f, "w").write("\n".join(rows) + "\n")
    c.info["documents"] = len(rows)
    replay(c, f, "pak", "damage", f)

@check("C04")
def c04(c):
    import tempfile, shutil
    c.bin = vlib.build()
    cli = vlib.build("cli")
    base = dict(Vers={8}, Abs={False})
    conts = {("t", 0), ("t", 40), ("r", 31), ("r", 70000)}
    tree = gen(c, "tree", "PakCli", dict(base, Comps={"a", "b.uasset", "c{00e9} d"}, MaxLen=3, Conts=conts, MaxF=5, Tree=True), spec="CSpec", invs=["TreeSafe", "OwedOk", "Out"], simulate=c.pick(150, 1500), depth=7, workers=1)
    one = gen(c, "one", "PakCli", dict(Vers={8}, Abs={True, False}, Comps={"a", "..", ".", ""}, MaxLen=3, Conts={("t", 9)}, MaxF=1, Tree=False), spec="CSpec", invs=["TreeSafe", "OwedOk", "Out"], workers=1)
    host = gen(c, "host", "PakCli", dict(Vers={3, 8, 11}, Abs={True, False}, Comps={"a", "b", "..", ".", ""}, MaxLen=3, Conts={("t", 9), ("t", 40)}, MaxF=4, Tree=False), spec="CSpec", invs=["TreeSafe", "OwedOk", "Out"], simulate=c.pick(12, 150), depth=6, workers=1)
    for f, lim in ((tree, c.pick(600, 5000)), (one, 5000), (host, c.pick(500, 5000))):
        rows = sorted(set(open(f).read().splitlines()))
        import random
        random.Random(vlib.SEED).shuffle(rows)
        open(f, "w").write("\n".join(rows[:lim]) + "\n")
        d = tempfile.mkdtemp(prefix="pakcli-"); os.chmod(d, 0o755)
        try: replay(c, f, "cli", f, cli, d)
        finally: shutil.rmtree(d, ignore_errors=True)
    c.assumptions = ["source files have portable UTF-8 names without backslashes; the pak is not created inside the packed directory", "symbolic links already present in the output directory are not considered"]

@check("C17")
def c17(c):
    c.bin = vlib.build()
    base = dict(Cps={0}, MaxText=0, Lens={0}, Bytes={0}, MaxBody=0, BigLens={0})
    runs = [("text", dict(base, Mode="text", Cps={0, 65, 127, 128, 233, 8364, 65535, 65536, 128512}, MaxText=c.pick(4, 5))),
            ("bytes", dict(base, Mode="bytes", Lens=frozenset([0, 1, 2, 3, 4, 5, -1, -2, -3, 131073, 131074, -131073, -131074, 2147483647, -2147483647, "=(-2147483647 - 1)"]), Bytes={0, 65, 169, 195, 216, 220, 240}, MaxBody=6)),
            ("big", dict(base, Mode="big", Cps={65, 233, 8364, 128512}, BigLens={1000, 65535, 65536, 65537, 131071, 131072, 131073, 200000})),
            ("arr", dict(base, Mode="arr", Cps={65, 233}, MaxText=c.pick(4, 5)))]
    for n, k in runs:
        f = gen(c, n, "PrimMC", k, spec="Spec", invs=["RoundTrip", "BoundOk", "Out"], heap="10g")
        replay(c, f, "prim", f)
    f = gen(c, "guid", "GuidText", dict(Vals=c.pick({0, 9, 160, 255}, {0, 1, 9, 16, 127, 160, 255}), Muts=c.pick({1, 2, 9, 20, 36}, set(range(1, 37)))), spec="Spec", invs=["ShowParse", "FormsAgree", "Out"], heap="10g")
    replay(c, f, "prim", f)

COMP = "={[c |-> x[1], ext |-> x[2]] : x \\in {<<\"Items\", FALSE>>, <<\"Game\", FALSE>>, <<\"a.b\", TRUE>>, <<\"Map.umap\", TRUE>>, <<\".hid\", FALSE>>, <<\"m{00e9}\", FALSE>>, <<\"x y\", FALSE>>, <<\"v1.2.uasset\", TRUE>>}}"
@check("C24")
def c24(c):
    c.bin = vlib.build()
    f = gen(c, "path", "PathBits", dict(Mode="path", Comps=COMP, MaxC=c.pick(3, 4), MaxN=0, Games={"TestGame", "My$Game", "$1", "Game", "Astro Neer"},
            Roots={"/Game/", "/Content/", "Game/", "/game/", "/Game", "//Game/", "/Engine/", "/Script/Game/", "", " /Game/"}), spec="Spec", invs=["Out"])
    replay(c, f, "prim", f)
    f = gen(c, "bits", "PathBits", dict(Mode="bits", Comps=COMP, MaxC=1, Games={"G"}, Roots={""}, MaxN=c.pick(4, 5)), spec="Spec", invs=["CopyOk", "Out"], heap="10g")
    replay(c, f, "prim", f)
    c.assumptions = ["path components are ordinary names (no empty, '.' or '..' components and no trailing slash)", "the destination range lies inside the destination vector"]

@check("C18")
def c18(c):
    c.bin = vlib.build()
    key = "/repo/unreal_asset/vendor/AC7Key.bin"
    base = dict(Chars={97, 90, 95, 51}, MaxName=c.pick(3, 4), MinName=0, LensA={4, 5, 221, 1028}, LensB={0, 1, 217, 1024, 2300})
    f = gen(c, "names", "Ac7", base, spec="Spec", invs=["PhaseOk", "Out"])
    replay(c, f, "prim", f, key)
    g = gen(c, "long", "Ac7", dict(Chars=set(range(48, 58)) | set(range(97, 123)) | {95, 45, 65, 90, 71}, MaxName=40, MinName=8, LensA={4, 6, 300}, LensB={0, 3, 1500}), spec="Spec", invs=["Out"], simulate=c.pick(60, 1500), depth=42, workers=1)
    replay(c, g, "prim", g, key)
    h = gen(c, "lens", "Ac7", dict(Chars={103}, MaxName=1, MinName=1, LensA=set(range(4, c.pick(40, 300))), LensB=set(range(0, c.pick(40, 300)))), spec="Spec", invs=["PhaseOk", "Out"])
    replay(c, h, "prim", h, key)
    c.assumptions = ["the key table vendored with the library is the reference", "the header part holds at least its four byte marker", "names are ASCII"]

@check("C19")
def c19(c):
    c.bin = vlib.build()
    f = gen(c, "dev", "Meta", dict(MaxDev=c.pick(2, 3), Rand=False), spec="Spec", invs=["UpgradeOk", "Out"], heap="12g")
    replay(c, f, "meta", f)
    g = gen(c, "rand", "Meta", dict(MaxDev=0, Rand=True), spec="Spec", invs=["UpgradeOk", "Out"], simulate=c.pick(4000, 60000), depth=3, workers=1)
    replay(c, g, "meta", g)

BATCH = '={<<>>, <<"a">>, <<"None", "b", "a">>}'
@check("C07")
def c07(c):
    c.bin = vlib.build()
    T = {"a", "A", "b"}
    # design: all table states (history hidden)
    c.tlc("NameMapMC", dict(Texts={"a", "b"}, Numbers={0}, Batches='={<<>>, <<"a">>}', MaxMaps=2, MaxLen=c.pick(3, 4), MaxNames=0, Depth=0, Emit=False), spec="DSpec",
          invs=["Handed", "FoundRight"], props=["Stable", "NoGrowth"], constraint="Small", view="View")
    f = gen(c, "tree", "NameMapMC", dict(Texts={"a", "b"}, Numbers={0}, Batches='={<<>>, <<"b", "a">>}', MaxMaps=2, MaxLen=3, MaxNames=3, Depth=c.pick(3, 4), Emit=True), spec="MCSpec", invs=["Handed", "FoundRight", "Out"], heap="10g")
    g = gen(c, "sim", "NameMapMC", dict(Texts={"a", "A", "b", "bb", "", "None"}, Numbers={0, 1, 2, 7}, Batches=BATCH, MaxMaps=3, MaxLen=12, MaxNames=12, Depth=c.pick(25, 45), Emit=True), spec="MCSpec", invs=["Handed", "FoundRight", "Out"],
            simulate=c.pick(200, 3000), depth=c.pick(27, 47), workers=1)
    for x in (f, g): replay(c, x, "names", x)

@check("C20")
def c20(c):
    c.bin = vlib.build()
    for m in ("table", "guess", "mixed", "store"):
        f = gen(c, m, "VersionsMC", dict(Mode=m, MaxStored=c.pick(2, 3)), spec="Spec", invs=(["Monotone", "SelfConsistent", "Out"] if m == "table" else ["Out"]), heap="10g")
        replay(c, f, "versions", f)

ENGS = set(range(2, 33))
@check("C09")
def c09(c):
    c.bin = vlib.build()
    f = gen(c, "a", "AssetMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(40, 400))), spec="Spec", invs=["LayoutOk", "Out"])
    replay(c, f, "asset", f)
    # files of engines under development: versions between those of the releases
    sharded(c, "mid", "AssetMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(60, 600)), Hows={"mid"}), "asset", spec="Spec", invs=["LayoutOk", "Out"])

@check("C08")
def c08(c):
    c.bin = vlib.build()
    f = gen(c, "a", "RefsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(16, 120))), spec="Spec", invs=["Laws", "LayoutOk", "Out"])
    replay(c, f, "refs", f)

OPS = {"", "drop", "last", "rev"}
EDITS = dict(spec="Spec", invs=["LayoutOk", "Out"], props=["Local"])
@check("C10")
def c10(c):
    c.bin = vlib.build()
    # every single edit of small documents in every version
    sharded(c, "each", "EditMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(1, 6)), Hows={"un", "ver"} if not c.thorough else {"un", "ver", "ver0"}, Depth=1, Emit="all"), "edit", **EDITS)
    # every pair of edits
    if c.thorough: sharded(c, "pairs", "EditMC", dict(Engs={5, 10, 13, 19, 22, 27, 31}, Seeds={3, 4}, Hows={"un"}, Depth=2, Emit="all"), "edit", **EDITS)
    # long random histories with saves and reloads in between
    sharded(c, "long", "EditMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(6, 20)), Hows={"un", "ver", "ver0"}, Depth=c.pick(20, 40), Emit="end"), "edit", **EDITS)
    # objects moved into other assets
    H = dict(spec="Spec", invs=["LayoutOk", "OutH"])
    sharded(c, "mprops", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(1, 10)), Depth=0), "moved", **H)
    sharded(c, "mnest", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(3, 30)), Depth=2), "moved", **H)
    sharded(c, "mexp", "ExportsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(4, 40))), "moved", **H)
    sharded(c, "mkis", "KismetMC", dict(Engs=set(range(18, 33)), Seeds=vlib.seeds(c.pick(3, 30)), Depth=2), "moved", **H)
    # every list inside the objects changed: elements, fields, rows, members and instructions removed or turned around
    M = dict(spec="Spec", invs=["LayoutOk", "OutM"])
    sharded(c, "lprops", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(2, 12)), Depth=0, Ops=OPS), "members", **M)
    sharded(c, "lnest", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(3, 30)), Depth=2, Ops=OPS), "members", **M)
    sharded(c, "lexp", "ExportsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(4, 40)), Ops=OPS), "members", **M)

@check("C11")
def c11(c):
    c.bin = vlib.build()
    sharded(c, "each", "EditMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(1, 6)), Hows={"un", "ver"} if not c.thorough else {"un", "ver", "ver0"}, Depth=1, Emit="all"), "contents", **EDITS)
    sharded(c, "long", "EditMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(6, 40)), Hows={"un", "ver", "ver0", "mid"}, Depth=c.pick(20, 40), Emit="end"), "contents", **EDITS)

@check("C12")
def c12(c):
    c.bin = vlib.build()
    # every type, native struct and element type in every version; six kinds of document
    f = gen(c, "every", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(12, 60)), Depth=0), spec="Spec", invs=["LayoutOk", "Out"], heap="8g")
    replay(c, f, "asset", f)
    f = gen(c, "nested", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(40, 200)), Depth=2), spec="Spec", invs=["LayoutOk", "Out"], heap="8g")
    replay(c, f, "asset", f)
    sharded(c, "mid", "PropsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(6, 60)), Depth=0, Hows={"mid"}), "asset", spec="Spec", invs=["LayoutOk", "Out"])

@check("C13")
def c13(c):
    c.bin = vlib.build()
    # every opcode in every version that decodes scripts
    f = gen(c, "every", "KismetMC", dict(Engs=set(range(18, 33)), Seeds=vlib.seeds(c.pick(16, 100)), Depth=1), spec="Spec", invs=["LayoutOk", "Out"])
    replay(c, f, "asset", f)
    for d, a, b in ((3, 60, 800), (5, 12, 200)):
        f = gen(c, f"nested{d}", "KismetMC", dict(Engs=set(range(18, 33)), Seeds=vlib.seeds(c.pick(a, b)), Depth=d), spec="Spec", invs=["LayoutOk", "Out"], heap="8g")
        replay(c, f, "asset", f)
    sharded(c, "mid", "KismetMC", dict(Engs=set(range(18, 33)), Seeds=vlib.seeds(c.pick(20, 200)), Depth=1, Hows={"mid"}), "asset", spec="Spec", invs=["LayoutOk", "Out"])

@check("C23")
def c23(c):
    c.bin = vlib.build()
    f = gen(c, "every", "ExportsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(24, 160))), spec="Spec", invs=["LayoutOk", "Out"], heap="8g")
    replay(c, f, "asset", f)
    sharded(c, "mid", "ExportsMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(24, 240)), Hows={"mid"}), "asset", spec="Spec", invs=["LayoutOk", "Out"])

@check("C14")
def c14(c):
    c.bin = vlib.build()
    for name, mod, consts, a, b in (("props", "PropsMC", dict(Depth=2), 24, 240), ("every", "PropsMC", dict(Depth=0), 18, 120), ("objects", "ExportsMC", {}, 24, 240),
                                    ("ops", "KismetMC", dict(Depth=1), 24, 200), ("scripts", "KismetMC", dict(Depth=3), 24, 240)):
        sharded(c, name, mod, dict(consts, Engs=ENGS, Seeds=vlib.seeds(c.pick(a, b))), "opaque", spec="Spec", invs=["OutO"])
    # unknown property types and trailing bytes in documents that are otherwise understood
    sharded(c, "whole", "PropsMC", dict(Depth=1, Engs=ENGS, Seeds=vlib.seeds(c.pick(8, 60))), "asset", spec="Spec", invs=["LayoutOk", "Out"])

@check("C15")
def c15(c):
    c.bin = vlib.build()
    vers = set(range(4, 17))
    sharded(c, "reg", "RegistryMC", dict(Engs=ENGS, Vers=vers, Seeds=vlib.seeds(c.pick(4, 60)), Depth=c.pick(6, 12)), "registry", spec="Spec", invs=["LayoutOk", "EdgesKept", "Inside", "Out"])
    sharded(c, "bad", "RegistryMC", dict(Engs=ENGS, Vers=vers, Seeds=vlib.seeds(c.pick(8, 120)), Depth=0), "regbad", spec="Spec", invs=["OutBad"])
    sharded(c, "parts", "RegPartsMC", dict(Engs=ENGS, Kinds={"store", "bundle"}, Seeds=vlib.seeds(c.pick(60, 600))), "regparts", spec="Spec", invs=["Out"])

@check("C16")
def c16(c):
    c.bin = vlib.build()
    sharded(c, "map", "UsmapMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(60, 900))), "usmap", spec="Spec", invs=["HeaderKeeps", "OneSlot", "Agree", "Out"])
    sharded(c, "bad", "UsmapMC", dict(Engs=ENGS, Seeds=vlib.seeds(c.pick(60, 600))), "usmapbad", spec="Spec", invs=["OutBad"])
    sharded(c, "slots", "SlotsMC", dict(Engs={2, 9, 13, 21, 27, 30, 32}, N=c.pick(4, 6), Bases={0, 1, 126, 127, 128, 253, 254, 255, 256, 600}, Caps={1, 2, 127}), "usmap", spec="Spec", invs=["Keeps", "Out"])

def comp(op, a, b=-1, d=-1): return f'[op |-> "{op}", a |-> {a}, b |-> {b}, c |-> {d}]'
@check("C21")
def c21(c):
    c.bin = vlib.build("modman")
    reqs = ["<<>>", f'<<{comp("^", 1)}>>', f'<<{comp("=", 1, 0, 0)}>>', f'<<{comp(">=", 1, 1)}, {comp("<", 2)}>>']
    inv = ["ChoiceOk", "BlameOk", "Conj", "Out"]
    # every history of two single-mod batches over two mods
    f = gen(c, "small", "DepsMC", dict(Mode="small", Ids={"A", "B"}, Lists="={<< <<1,0,0>> >>, << <<1,0,0>>, <<1,2,0>>, <<0,9,0>> >>, << <<2,0,0>> >>}", Reqs="={" + ", ".join(reqs) + "}", Depth=2, Seeds={0},
            Universe="={<<1,0,0>>,<<1,2,0>>,<<2,0,0>>,<<0,9,0>>}"), spec="MCSpec", invs=inv, props=["Sticky"], workers=1)
    replay(c, f, "deps", f)
    # pseudo random batches of several mods with every form of requirement
    sharded(c, "large", "DepsMC", dict(Mode="large", Ids={"A"}, Lists="={}", Reqs="={}", Depth=4, Seeds=vlib.seeds(c.pick(1400, 12000)),
            Universe="={<<a,b,p>> : a \\in 0..3, b \\in {0,1,2,3,4,10,11}, p \\in {0,1,2,3,4,10,11}}"), "deps", over="Seeds", spec="MCSpec", invs=inv)

@check("C22")
def c22(c):
    c.bin = vlib.build("modman")
    a = gen(c, "assets", "ExportsMC", dict(Engs={25}, Seeds=set(range(3, 60, 4))), spec="Spec", invs=["Out"], workers=1)
    I = dict(spec="MCSpec", invs=["OneSource", "Precedence", "Out"])
    # every set-up of an integrated pak, up to two mod and two game paks over one name, every step from each
    f = gen(c, "all", "LayersMC", dict(Mode="all", Names={"G/Content/A.uasset"}, Split={"s1"}, Whole={"u1"}, MaxPaks=2, Depth=1, Seeds={0}), props=["StoredIsSeen", "OthersKept"], workers=1, **I)
    replay(c, f, "layers", a, f, 25)
    f = gen(c, "two", "LayersMC", dict(Mode="all", Names={"G/Content/A.uasset"}, Split={"s1", "s2"}, Whole={"u1"}, MaxPaks=1, Depth=c.pick(1, 2), Seeds={0}), props=["StoredIsSeen", "OthersKept"], workers=1, **I)
    replay(c, f, "layers", a, f, 25)
    # longer histories over three names
    sharded(c, "rand", "LayersMC", dict(Mode="rand", Names={"G/Content/A.uasset", "G/Content/A.v2/B.c.umap", "G/Content/B.uasset"}, Split={"s1", "s2", "s3"}, Whole={"u1", "u2"}, MaxPaks=3, Depth=8,
            Seeds=set(range(1, 40000))), lambda f: ("layers", a, f, 25), over="Seeds", simulate=c.pick(40, 400), depth=9, **I)

MGR = dict(over="Seeds", spec="MCSpec", invs=["LibOk", "PaksOk", "Reported", "Out"], props=["KeepFiles", "Restart"])
@check("C25")
def c25(c):
    c.bin = vlib.build("modman")
    sharded(c, "lib", "ManagerMC", dict(Depth=12, Runs=3, Seeds=vlib.seeds(c.pick(900, 6000))), lambda f: ("manage", f, "library"), **MGR)
@check("C26")
def c26(c):
    c.bin = vlib.build("modman")
    sharded(c, "run", "ManagerMC", dict(Depth=8, Runs=12, Seeds=vlib.seeds(c.pick(900, 6000))), lambda f: ("manage", f, "install"), **MGR)

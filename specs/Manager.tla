------------------------------- MODULE Manager ------------------------------
(* The mod manager: the folder of mod files, what the manager knows about each  *)
(* mod, its settings file, and what a run of the integrator installs.           *)
(* The world says what exists: releases of mods (rel, file), index files on the *)
(* server (idx) and mods that come with the manager (baked).                    *)
(* Versions are <<major, minor, patch>>.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES W,           \* the world; only the index files change
          dir,         \* the Mods folder: file name -> file
          lib,         \* mod id -> what is known (empty while the manager is not running)
          cfg,         \* the settings file
          refuse,      \* the setting "refuse mismatched connections"
          paks,        \* the folder of installed paks: set of file names
          rows,        \* the mods the integrated pak lists, by priority (<<>>: there is no integrated pak)
          acc,         \* saved selections (prof), files whose libraries are trusted (trust), installed files with libraries that are not (unt)
          up,          \* is the manager running
          note         \* what the last step reported
vars == <<W, dir, lib, cfg, refuse, paks, rows, acc, up, note>>
G(own, reqs, dls) == [own |-> own, reqs |-> reqs, dls |-> dls]
D(g) == INSTANCE Deps WITH own <- g.own, reqs <- g.reqs, dls <- g.dls, last <- <<>>
D0 == INSTANCE Deps WITH own <- <<>>, reqs <- {}, dls <- <<>>, last <- <<>>
None == [id \in {} |-> 0]
Newest(S) == D0!Newest(S)
\* ---- bags of warnings
One(k, i) == <<[kind |-> k, id |-> i]>>
RECURSIVE CatSet(_, _)
CatSet(S, f) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN f[a] \o CatSet(S \ {a}, f)
\* ---- files. a file is [name, kind, id, ver]; kind "ok" or what is wrong with it
Bad(f) == CASE f.kind = "garbage" -> One("UnrealPakError", f.name)
            [] f.kind = "nometa" -> One("MissingMetadata", f.name)
            [] f.kind \in {"badmeta", "wrongid", "wrongver"} -> One("InvalidMetadata", f.name)
            [] f.kind = "badname" -> One("InvalidModFileName", f.name)
            [] f.kind = "zeros" -> One("InvalidVersion", f.name)
            [] OTHER -> <<>>
Range(s) == {s[j] : j \in DOMAIN s}
Emp(en) == [vers |-> None, sel |-> [k |-> "indirect", v |-> <<>>], lat |-> <<>>, on |-> en, of |-> <<>>]
Ins(L, F, en) == LET ids == {f.id : f \in F} IN
  [id \in DOMAIN L \cup ids |->
     LET old == IF id \in DOMAIN L THEN L[id] ELSE Emp(en)
         mine == {f \in F : f.id = id} IN
     [old EXCEPT !.vers = [v \in DOMAIN old.vers \cup {f.ver : f \in mine} |->
          IF \E f \in mine : f.ver = v THEN [file |-> (CHOOSE f \in mine : f.ver = v).name, got |-> TRUE, url |-> ""] ELSE old.vers[v]]]]
\* a mod that follows the latest version follows the newest one there is, unless an index file says which it is
Auto(L) == [id \in DOMAIN L |-> IF L[id].sel.k = "indirect" THEN LET n == Newest(DOMAIN L[id].vers) IN [L[id] EXCEPT !.sel.v = n, !.lat = n] ELSE L[id]]
Data(L, ids) == [id \in DOMAIN L |-> IF id \in ids /\ L[id].vers[L[id].sel.v].got THEN [L[id] EXCEPT !.of = L[id].sel.v] ELSE L[id]]
Rel(id, v) == W.rel[id][v]
\* index files: [st |-> "ok", latest, vers: ver -> [file, ok]]
Idx(id) == W.idx[id]
IdxWarn(id) == CASE Idx(id).st = "404" -> One("IndexFileDownloadFailedStatus", id) [] Idx(id).st \in {"junk", "badver"} -> One("InvalidIndexFile", id) [] Idx(id).st = "nomod" -> One("IndexFileMissingMod", id) [] OTHER -> <<>>
GoodIdx(id) == IF Idx(id).st # "ok" THEN {} ELSE {v \in DOMAIN Idx(id).vers : Idx(id).vers[v].ok}
BadEntries(id) == IF Idx(id).st # "ok" THEN <<>> ELSE CatSet(DOMAIN Idx(id).vers, [v \in DOMAIN Idx(id).vers |-> IF Idx(id).vers[v].ok THEN <<>> ELSE One("InvalidIndexFile", id)])
WithIndex(L, id) ==
  IF Idx(id).st # "ok" THEN [l |-> L[id], w |-> IdxWarn(id)]
  ELSE LET m == L[id]
           good == GoodIdx(id)
           vs == [v \in DOMAIN m.vers \cup good |-> IF v \in DOMAIN m.vers THEN (IF v \in good THEN [m.vers[v] EXCEPT !.url = Idx(id).at] ELSE m.vers[v]) ELSE [file |-> Idx(id).vers[v].file, got |-> FALSE, url |-> Idx(id).at]]
           known == Idx(id).latest \in DOMAIN vs
           m1 == [m EXCEPT !.vers = vs]
           m2 == IF known THEN [m1 EXCEPT !.lat = Idx(id).latest, !.sel = IF m.sel.k = "specific" THEN m.sel ELSE [k |-> "latest", v |-> Idx(id).latest]] ELSE m1 IN
       [l |-> m2, w |-> BadEntries(id) \o (IF known THEN <<>> ELSE One("InvalidIndexFile", id))]
\* files are read, every one that is sound is known afterwards; the index files of the mods read are consulted
Process(L, F, en) ==
  LET ok == {f \in F : f.kind = "ok"}
      ids == {f.id : f \in ok}
      a == TLCEval(Data(Auto(Ins(L, ok, en)), ids))
      ask == {id \in ids : a[id].of # <<>> /\ Rel(id, a[id].of).dl}
      ix == TLCEval([id \in ask |-> WithIndex(a, id)])
      bw == [f \in F |-> Bad(f)] IN
  [l |-> [id \in DOMAIN a |-> IF id \in ask THEN ix[id].l ELSE a[id]],
   w |-> CatSet(F, bw) \o CatSet(ask, [id \in ask |-> ix[id].w])]
\* ---- settings
CfgOf(L, r, a) == [is |-> TRUE, refuse |-> r, prof |-> a.prof, trust |-> a.trust, mods |-> [id \in DOMAIN L |-> [latest |-> L[id].sel.k # "specific", on |-> L[id].on, ver |-> L[id].sel.v]]]
Loaded(L, c) == [id \in DOMAIN L |-> IF c.is /\ id \in DOMAIN c.mods
    THEN LET m == [L[id] EXCEPT !.on = c.mods[id].on] IN IF ~c.mods[id].latest /\ c.mods[id].ver \in DOMAIN m.vers THEN [m EXCEPT !.sel = [k |-> "specific", v |-> c.mods[id].ver]] ELSE m
    ELSE L[id]]
Tell(op, w) == [op |-> op, warn |-> w, failed |-> FALSE]
\* ---- actions
Start ==
  LET files == {f \in Range([n \in DOMAIN dir |-> dir[n]]) : f.scan}
      p == TLCEval(Process(None, files, FALSE))
      l == Loaded(p.l, cfg) IN
  /\ ~up /\ up' = TRUE
  /\ lib' = l
  /\ refuse' = IF cfg.is THEN cfg.refuse ELSE TRUE
  /\ acc' = IF cfg.is THEN [prof |-> cfg.prof, trust |-> cfg.trust, unt |-> {}] ELSE [prof |-> <<>>, trust |-> {}, unt |-> {}]
  /\ cfg' = CfgOf(l, IF cfg.is THEN cfg.refuse ELSE TRUE, acc')
  /\ note' = Tell([op |-> "start"], p.w)
  /\ UNCHANGED <<W, dir, paks, rows>>
Stop == up /\ up' = FALSE /\ lib' = None /\ note' = Tell([op |-> "stop"], <<>>) /\ UNCHANGED <<W, dir, cfg, refuse, paks, rows, acc>>
\* new files are copied into the folder; those that are not sound are thrown away again
\* (a file that already lies in the folder is only read again)
Import(F, self) ==
  LET p == TLCEval(Process(lib, F, TRUE)) IN
  /\ up
  /\ lib' = p.l
  /\ dir' = IF self THEN dir ELSE [n \in (DOMAIN dir \cup {f.name : f \in {f \in F : f.kind = "ok"}}) \ {f.name : f \in {f \in F : f.kind # "ok"}} |-> IF \E f \in F : f.name = n THEN CHOOSE f \in F : f.name = n ELSE dir[n]]
  /\ note' = Tell([op |-> "import", files |-> F, self |-> self], p.w)
  /\ UNCHANGED <<W, cfg, refuse, paks, rows, acc, up>>
Remove(id) ==
  LET gone == {lib[id].vers[v].file : v \in {v \in DOMAIN lib[id].vers : lib[id].vers[v].got}} IN
  /\ up /\ id \in DOMAIN lib
  /\ lib' = [i \in DOMAIN lib \ {id} |-> lib[i]]
  /\ dir' = [n \in DOMAIN dir \ gone |-> dir[n]]
  /\ note' = Tell([op |-> "remove", id |-> id], <<>>)
  /\ UNCHANGED <<W, cfg, refuse, paks, rows, acc, up>>
SwitchMod(id, b) == up /\ id \in DOMAIN lib /\ lib' = [lib EXCEPT ![id].on = b] /\ note' = Tell([op |-> "switch", id |-> id, on |-> b], <<>>) /\ UNCHANGED <<W, dir, cfg, refuse, paks, rows, acc, up>>
SelectVer(id, v) == up /\ id \in DOMAIN lib /\ v \in DOMAIN lib[id].vers /\ lib' = [lib EXCEPT ![id].sel = [k |-> "specific", v |-> v]] /\ note' = Tell([op |-> "select", id |-> id, v |-> v], <<>>) /\ UNCHANGED <<W, dir, cfg, refuse, paks, rows, acc, up>>
SetRefuse(b) == up /\ refuse' = b /\ note' = Tell([op |-> "refuse", on |-> b], <<>>) /\ UNCHANGED <<W, dir, lib, cfg, paks, rows, acc, up>>
Save == up /\ cfg' = CfgOf(lib, refuse, acc) /\ note' = Tell([op |-> "save"], <<>>) /\ UNCHANGED <<W, dir, lib, refuse, paks, rows, acc, up>>
\* the user trusts the libraries of everything installed; the current selection is remembered under a name
Trust == up /\ acc' = [acc EXCEPT !.trust = @ \cup acc.unt, !.unt = {}] /\ note' = Tell([op |-> "trust"], <<>>) /\ UNCHANGED <<W, dir, lib, cfg, refuse, paks, rows, up>>
Profile(n) == up /\ acc' = [acc EXCEPT !.prof = Append(@, [name |-> n, mods |-> {[id |-> id, latest |-> lib[id].sel.k # "specific", ver |-> lib[id].sel.v] : id \in {id \in DOMAIN lib : lib[id].on}}])]
              /\ note' = Tell([op |-> "profile", name |-> n], <<>>) /\ UNCHANGED <<W, dir, lib, cfg, refuse, paks, rows, up>>
\* an index file changes on the server
Serve(id, ix) == up /\ W' = [W EXCEPT !.idx[id] = ix] /\ note' = Tell([op |-> "serve", id |-> id], <<>>) /\ UNCHANGED <<dir, lib, cfg, refuse, paks, rows, acc, up>>
\* ---- a run of the integrator
\* what the server sends for a release: the file itself ("ok"), nothing, or something that is not that release; only the file itself is stored
Good(p) == Rel(p[1], p[2]).srv = "ok"
FetchWarn(p) == LET k == Rel(p[1], p[2]).srv n == W.file[p[1]][p[2]] IN
  CASE k = "404" -> One("DownloadFailed", n) [] k \in {"garbage", "nometa"} -> One("UnrealPakError", "") [] k = "ok" -> <<>> [] OTHER -> One("InvalidMetadata", n)
FetchWarns(S) == LET w == [p \in S |-> FetchWarn(p)] IN CatSet(S, w)
FileAt(id, v) == [name |-> W.file[id][v], kind |-> "ok", id |-> id, ver |-> v, scan |-> TRUE]
BakedIds == {b.id : b \in W.baked}
DepSeq(id, v) == Rel(id, v).deps
Batch(b, g) == G(D(g)!NewOwn(b, g.own), g.reqs \cup D(g)!Placed(b), [id \in DOMAIN g.dls \cup D(g)!Wanted(b) |-> (IF id \in DOMAIN g.dls THEN g.dls[id] ELSE {}) \cup D(g)!Fetch(b, id)])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SeqOf(S \ {a})
\* dependencies that are not among the enabled mods are looked up and fetched, newest acceptable version first, then theirs, until there is nothing new
RECURSIVE Rounds(_, _, _, _, _)
Rounds(st, want, first, n, w) ==
  LET ids == want \ first
      asked == [id \in ids |-> IF st.g.dls[id] # {} /\ id \notin st.asked THEN IdxWarn(id) \o BadEntries(id) ELSE <<>>]
      nw == w \o CatSet(ids, asked)
      pool(id) == IF st.g.dls[id] # {} /\ id \in DOMAIN W.idx THEN GoodIdx(id) ELSE {}
      fit(id) == {v \in pool(id) : D(st.g)!Allowed(id, v)}
      fresh == TLCEval({id \in ids : fit(id) # {} /\ <<id, Newest(fit(id))>> \notin st.seen})
      come == TLCEval({id \in fresh : Good(<<id, Newest(fit(id))>>)})
      batch == TLCEval([j \in 1..Cardinality(come) |-> LET id == SeqOf(come)[j] v == Newest(fit(id)) IN [id |-> id, versions |-> SeqOf(pool(id)), deps |-> DepSeq(id, v)]])
      st2 == TLCEval([g |-> Batch(batch, st.g), seen |-> st.seen \cup {<<id, Newest(fit(id))>> : id \in fresh}, asked |-> st.asked \cup {id \in ids : st.g.dls[id] # {}}]) IN
  IF come = {} THEN [st |-> [st2 EXCEPT !.g = st.g], w |-> nw] ELSE Rounds(st2, D(st2.g)!Wanted(batch), first, n + 1, nw)
RowOf(id, v) == Rel(id, v).row @@ [pre |-> Rel(id, v).pre]
Integrate ==
  LET on == {id \in DOMAIN lib : lib[id].on}
      inst == {<<id, lib[id].sel.v>> : id \in on}
      fetched == {p \in inst : ~lib[p[1]].vers[p[2]].got /\ lib[p[1]].vers[p[2]].url # ""}
      came == {p \in fetched : Good(p)}
      lost == {p \in fetched \ came : W.file[p[1]][p[2]] \notin DOMAIN dir}
      gone == [p \in lost |-> One("IoError", W.file[p[1]][p[2]])]
      dir1 == [n \in DOMAIN dir \cup {W.file[p[1]][p[2]] : p \in came} |-> IF n \in DOMAIN dir THEN dir[n] ELSE LET p == CHOOSE p \in came : W.file[p[1]][p[2]] = n IN FileAt(p[1], p[2])]
      p1 == TLCEval(Process(lib, {FileAt(p[1], p[2]) : p \in inst \ lost}, FALSE))
      l1 == p1.l
      pick(id) == IF l1[id].sel.k = "indirect" THEN Newest(DOMAIN l1[id].vers) ELSE l1[id].sel.v
      first == TLCEval([j \in 1..Cardinality(on) |-> LET id == SeqOf(on)[j] IN [id |-> id, versions |-> <<pick(id)>>, deps |-> DepSeq(id, l1[id].of)]])
      g0 == TLCEval(Batch(first, G(None, {}, None)))
      r == TLCEval(Rounds([g |-> g0, seen |-> {}, asked |-> {}], D(g0)!Wanted(first), on, 0, <<>>))
      g == r.st.g
      ch == TLCEval(D(g)!Choice1)
      used == {b \in W.baked : b.id \notin on /\ \E q \in g.reqs : q.to = b.id}
      find == {<<id, ch[id]>> : id \in (DOMAIN ch \ on) \ {b.id : b \in used}}
      extra == {p \in find : Good(p)}
      open == {id \in D(g)!Unresolved : id \notin BakedIds}
      blame == [id \in open |-> <<[kind |-> "UnresolvedDependency", id |-> id, by |-> D(g)!Blame(id)]>>]
      p2 == TLCEval(Process(l1, {FileAt(p[1], p[2]) : p \in extra}, TRUE))
      l2 == [id \in DOMAIN p2.l |-> IF \E p \in extra : p[1] = id THEN [p2.l[id] EXCEPT !.on = TRUE] ELSE p2.l[id]]
      all == (inst \ lost) \cup extra
      some == all # {} \/ used # {}
      stored == {p \in r.st.seen : Good(p)} \cup extra
      core == {b \in W.baked : b.core /\ b.id \notin {p[1] : p \in all}} IN
  /\ up
  /\ IF on = {} THEN /\ paks' = {} /\ rows' = <<>> /\ UNCHANGED <<lib, dir, cfg, acc>> /\ note' = Tell([op |-> "integrate"], <<>>)
     ELSE /\ lib' = l2
          /\ dir' = [n \in DOMAIN dir1 \cup {W.file[p[1]][p[2]] : p \in stored} |-> IF n \in DOMAIN dir1 THEN dir1[n] ELSE LET p == CHOOSE p \in stored : W.file[p[1]][p[2]] = n IN FileAt(p[1], p[2])]
          /\ cfg' = CfgOf(l2, refuse, acc)
          /\ paks' = {W.file[p[1]][p[2]] : p \in all} \cup {b.file : b \in used \cup core} \cup (IF some THEN {"900-ModIntegrator_P.pak"} ELSE {})
          /\ rows' = IF ~some THEN <<>> ELSE <<[ordered |-> {RowOf(p[1], p[2]) : p \in all} \cup {b.row @@ [pre |-> b.pre] : b \in used}, after |-> {b.row : b \in core \ used}, refuse |-> refuse]>>
          /\ acc' = [acc EXCEPT !.unt = {W.file[p[1]][p[2]] : p \in {p \in all : Rel(p[1], p[2]).dll}} \ acc.trust]
          /\ note' = Tell([op |-> "integrate"], FetchWarns(fetched) \o CatSet(lost, gone) \o p1.w \o r.w \o CatSet(open, blame) \o FetchWarns(find) \o p2.w)
  /\ UNCHANGED <<W, refuse, up>>
\* ---- properties of the design
\* every version that is marked as present has its file in the folder, and nothing is selected that is not known
LibOk == up => \A id \in DOMAIN lib : /\ DOMAIN lib[id].vers # {} /\ lib[id].sel.v \in DOMAIN lib[id].vers
                                       /\ \A v \in DOMAIN lib[id].vers : lib[id].vers[v].got => lib[id].vers[v].file \in DOMAIN dir
\* whatever is installed was taken from the folder (or comes with the manager)
PaksOk == \A n \in paks : n \in DOMAIN dir \/ n = "900-ModIntegrator_P.pak" \/ n \in {b.file : b \in W.baked} \/ note.op.op # "integrate"
\* no file of the user is ever lost except by removing the mod
KeepFiles == [][(note'.op.op # "remove") => (\A n \in DOMAIN dir : n \in DOMAIN dir')]_vars
\* nothing that brings libraries is installed without being trusted or reported
Reported == (up /\ note.op.op = "integrate") => \A id \in DOMAIN W.rel : \A v \in DOMAIN W.rel[id] : (W.rel[id][v].dll /\ W.file[id][v] \in paks) => (W.file[id][v] \in acc.trust \/ W.file[id][v] \in acc.unt)
\* saved settings survive a restart
Restart == [][(note'.op.op = "start" /\ cfg.is) => \A id \in DOMAIN lib' \cap DOMAIN cfg.mods : lib'[id].on = cfg.mods[id].on /\ acc'.prof = cfg.prof /\ acc'.trust = cfg.trust]_vars
=============================================================================

------------------------------ MODULE ManagerMC -----------------------------
EXTENDS Manager, Choice, Json, CSV, IOUtils
CONSTANTS Seeds, Depth, Runs   \* Runs: of 23 steps about how many run the integrator
VARIABLES x, hist
all == <<vars, x, hist>>
Ids == <<"Alpha", "Beta.auth", "Gamma7", "Delta", "Core">>
Outside == <<"Side", "Ghost">>
Vs == << <<0, 9, 0>>, <<1, 0, 0>>, <<1, 2, 0>>, <<1, 10, 0>>, <<2, 0, 0>> >>
VerText(v) == ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3])
Pre == [id \in Range(Ids) |-> CASE id = "Alpha" -> 100 [] id = "Beta.auth" -> 5 [] id = "Gamma7" -> 300 [] id = "Core" -> 7 [] id = "Delta" -> 450 [] OTHER -> 0]
PreText(n) == CASE n = 100 -> "100" [] n = 5 -> "005" [] n = 7 -> "007" [] n = 300 -> "300" [] n = 450 -> "450" [] n = 0 -> "000"
Name(id, v) == PreText(Pre[id]) \o "-" \o id \o "-" \o VerText(v) \o "_P.pak"
K(id) == CHOOSE k \in 1..7 : (Ids \o Outside)[k] = id
KV(v) == CHOOSE k \in DOMAIN Vs : Vs[k] = v
\* requirements as in Deps: sequences of comparators
Cp(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
Reqs == << <<>>, <<>>, <<Cp("^", 1, -1, -1)>>, <<Cp(">=", 1, 0, 0)>>, <<Cp("=", 1, 2, 0)>>, <<Cp(">=", 1, 0, -1), Cp("<", 2, -1, -1)>>, <<Cp("<", 1, 10, -1)>>, <<Cp(">=", 3, -1, -1)>> >>
DepsOf(y, id) == LET n == Pick(Sub(y, 1), <<0, 0, 1, 1, 2, 3>>) r == Nat2(Sub(y, 2), 7) tgt == [j \in 1..n |-> (Ids \o Outside)[((r + (2 * j)) % 7) + 1]] IN
  [j \in 1..n |-> [id |-> tgt[j], req |-> Pick(Sub(y, 10 + j), Reqs), dl |-> IF Flip(Sub(y, 20 + j), 3) THEN "" ELSE "idx"]]
B2(y) == Nat2(y, 2) = 0
Opt(y, t) == IF Flip(y, 3) THEN "" ELSE t
Row(y, id, v) == [id |-> id, name |-> id \o " " \o VerText(v), author |-> Opt(Sub(y, 1), "By " \o id), description |-> Opt(Sub(y, 2), "Text of " \o id), version |-> VerText(v),
   build |-> Pick(Sub(y, 3), <<"", "1.2.3.4", "1.2.3.4", "10.0.25.1", "1.2.3", "1.x.3.4">>), sync |-> Pick(Sub(y, 4), <<"", "serverclient", "server", "client", "none">>), homepage |-> Opt(Sub(y, 5), "https://x/" \o id)]
Offers(y, id) == LET n == Pick(Sub(y, 3), <<1, 1, 2, 3, 5>>) IN {Vs[((Nat2(Sub(y, 4), 5) + j) % 5) + 1] : j \in 1..n}
RelOf(y, id) == [v \in Offers(y, id) |-> LET z == Sub(y, 50 + KV(v)) IN [deps |-> TLCEval(DepsOf(Sub(z, 1), id)), dl |-> B2(Sub(y, 5)), dll |-> Flip(Sub(z, 3), 4), srv |-> IF Flip(Sub(z, 4), 5) THEN Pick(Sub(z, 5), <<"404", "garbage", "nometa", "badmeta", "wrongid", "wrongver">>) ELSE "ok", pre |-> Pre[id], row |-> Row(Sub(z, 2), id, v)]]
BadName(y, id, v) == Pick(y, <<"../../" \o Name(id, v), "1x0-" \o id \o "-" \o VerText(v) \o "_P.pak", "100-lower-" \o VerText(v) \o "_P.pak", "100-" \o id \o "-1x2x3_P.pak", "100-" \o id \o "-" \o VerText(v) \o "_P-pak", Name(CHOOSE i \in {"Alpha", "Gamma7"} : i # id, v), Name(id, <<1, 2, 3>>), "101-x" \o id \o "-" \o VerText(v) \o "_P.pak">>)
IdxOf(o, y, id) ==
  IF id \notin Range(Ids) THEN [st |-> Pick(Sub(y, 1), <<"404", "nomod", "junk">>), latest |-> <<>>, at |-> "f", vers |-> None]
  ELSE LET off == Offers(o, id)
           lst == {v \in off : ~Flip(Sub(y, 70 + KV(v)), 4)}
           vs == IF lst = {} THEN off ELSE lst
           st == Pick(Sub(y, 80), <<"ok", "ok", "ok", "ok", "ok", "ok", "404", "junk", "nomod", "badver">>) IN
       [st |-> st, at |-> Pick(Sub(y, 82), <<"f", "m">>), latest |-> IF Flip(Sub(y, 81), 8) THEN <<9, 9, 9>> ELSE IF Flip(Sub(y, 83), 5) THEN CHOOSE v \in vs : TRUE ELSE Newest(vs),
        vers |-> [v \in vs |-> LET bad == Flip(Sub(y, 90 + KV(v)), 7) IN [file |-> IF bad THEN BadName(Sub(y, 100 + KV(v)), id, v) ELSE Name(id, v), ok |-> ~bad]]]
WorldOf(y) == [rel |-> TLCEval([id \in Range(Ids) |-> TLCEval(RelOf(Sub(y, K(id)), id))]),
   file |-> [id \in Range(Ids) |-> [v \in Offers(Sub(y, K(id)), id) |-> Name(id, v)]],
   idx |-> TLCEval([id \in Range(Ids \o Outside) |-> TLCEval(IdxOf(Sub(y, K(id)), Sub(y, K(id)), id))]),
   baked |-> {[id |-> "Core", core |-> TRUE, file |-> "800-Core-1.0.0_P.pak", pre |-> 800, row |-> [id |-> "Core", name |-> "Core", author |-> "", description |-> "", version |-> "1.0.0", build |-> "", sync |-> "", homepage |-> ""]],
              [id |-> "Side", core |-> FALSE, file |-> "050-Side-1.0.0_P.pak", pre |-> 50, row |-> [id |-> "Side", name |-> "Side", author |-> "", description |-> "", version |-> "1.0.0", build |-> "", sync |-> "", homepage |-> ""]]}]
Odd == { [name |-> "000-Junk-1.0.0_P.pak", kind |-> "garbage", id |-> "Junk", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Empty-1.0.0_P.pak", kind |-> "nometa", id |-> "Empty", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Broken-1.0.0_P.pak", kind |-> "badmeta", id |-> "Broken", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Other-1.0.0_P.pak", kind |-> "wrongid", id |-> "Another", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Old-1.0.0_P.pak", kind |-> "wrongver", id |-> "Old", ver |-> <<1, 0, 1>>, scan |-> TRUE],
         [name |-> "000-small-1.0.0_P.pak", kind |-> "badname", id |-> "small", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "Plain-1.0.0_P.pak", kind |-> "badname", id |-> "Plain", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Sub_x-1.0.0_P.pak", kind |-> "badname", id |-> "Sub_x", ver |-> <<1, 0, 0>>, scan |-> TRUE],
         [name |-> "000-Pad-01.0.0_P.pak", kind |-> "zeros", id |-> "Pad", ver |-> <<1, 0, 0>>, scan |-> TRUE] }
Apart == { [name |-> "900-ModIntegrator_P.pak", kind |-> "garbage", id |-> "", ver |-> <<>>, scan |-> FALSE], [name |-> "readme.txt", kind |-> "garbage", id |-> "", ver |-> <<>>, scan |-> FALSE] }
AllFiles == UNION {{FileAt(id, v) : v \in DOMAIN W.rel[id]} : id \in Range(Ids)}
KnownNames == SeqOf({Name(id, v) : id \in Range(Ids), v \in Range(Vs)} \cup {f.name : f \in Odd \cup Apart})
Code(s) == CHOOSE k \in DOMAIN KnownNames : KnownNames[k] = s
Some2(S, y, n) == {f \in S : Flip(Sub(y, Code(f.name)), n)}
FilesAt(y) == LET F == Some2(AllFiles, Sub(y, 1), 3) \cup Some2(Odd, Sub(y, 2), 6) \cup Some2(Apart, Sub(y, 3), 2) IN [n \in {f.name : f \in F} |-> CHOOSE f \in F : f.name = n]
\* the settings file that lies there before the first start: none, one that cannot be read, or one of an earlier time
Profs(y, most) == LET n == Nat2(Sub(y, 1), most + 1) IN [j \in 1..n |-> [name |-> <<"First", "Second">>[j], mods |-> {[id |-> id, latest |-> B2(Sub(y, 10 + K(id))), ver |-> Pick(Sub(y, 20 + K(id)), Vs)] : id \in {id \in Range(Ids \o Outside) : B2(Sub(y, (30 * j) + K(id)))}}]]
CfgAt(y, most) == [is |-> TRUE, refuse |-> B2(Sub(y, 1)), prof |-> Profs(Sub(y, 2), most), trust |-> {f.name : f \in Some2({g \in AllFiles : Rel(g.id, g.ver).dll}, Sub(y, 3), 2)},
   mods |-> [id \in {id \in Range(Ids \o Outside) : ~Flip(Sub(y, 20 + K(id)), 4)} |-> [latest |-> B2(Sub(y, 30 + K(id))), on |-> B2(Sub(y, 40 + K(id))), ver |-> Pick(Sub(y, 50 + K(id)), Vs)]]]
NoCfg == [is |-> FALSE, refuse |-> TRUE, prof |-> <<>>, trust |-> {}, mods |-> None]
CfgKind(y) == Pick(Sub(y, 1), <<"none", "none", "none", "junk", "now", "now", "old">>)
Cfg0(y) == IF CfgKind(y) \in {"now", "old"} THEN CfgAt(Sub(y, 2), IF CfgKind(y) = "old" THEN 1 ELSE 2) ELSE NoCfg
MCInit == /\ x \in Seeds /\ W = WorldOf(Sub(x, 1)) /\ dir = FilesAt(Sub(x, 2)) /\ lib = None /\ cfg = Cfg0(Sub(x, 3)) /\ refuse = TRUE
          /\ paks = {} /\ rows = <<>> /\ acc = [prof |-> <<>>, trust |-> {}, unt |-> {}] /\ up = FALSE /\ note = Tell([op |-> ""], <<>>) /\ hist = <<>>
CfgView(c) == [is |-> c.is, refuse |-> c.refuse, prof |-> c.prof, trust |-> c.trust, mods |-> {[id |-> id] @@ c.mods[id] : id \in DOMAIN c.mods}]
IdxView(id, i) == [id |-> id, st |-> i.st, latest |-> i.latest, at |-> i.at, vers |-> {[v |-> v] @@ i.vers[v] : v \in DOMAIN i.vers}]
Obs == [idx |-> IF note.op.op = "serve" THEN <<IdxView(note.op.id, W.idx[note.op.id])>> ELSE <<>>, note |-> note, up |-> up, lib |-> {[id |-> id, on |-> lib[id].on, sel |-> lib[id].sel, lat |-> lib[id].lat, of |-> lib[id].of, vers |-> {[v |-> v] @@ lib[id].vers[v] : v \in DOMAIN lib[id].vers}] : id \in DOMAIN lib},
        dir |-> DOMAIN dir, cfg |-> CfgView(cfg), paks |-> paks, rows |-> rows, acc |-> acc]
Y == Sub(x, 100 + Len(hist))
InLib == SeqOf(DOMAIN lib)
Step ==
  IF ~up THEN Start
  ELSE LET k == Nat2(Sub(Y, 1), 25) IN
       IF Nat2(Sub(Y, 7), 23) < Runs THEN Integrate
       ELSE IF k < 6 THEN \E F \in {Some2(AllFiles, Sub(Y, 2), 4) \cup Some2({f \in Odd : f.name \notin DOMAIN dir}, Sub(Y, 3), 5)} : Import(F, FALSE)
       ELSE IF k < 9 THEN \E F \in {Some2({dir[n] : n \in {n \in DOMAIN dir : dir[n].scan}}, Sub(Y, 2), 3)} : Import(F, TRUE)
       ELSE IF k = 9 THEN Save
       ELSE IF k < 12 THEN Stop
       ELSE IF k >= 23 THEN \E id \in {Pick(Sub(Y, 4), Ids)} : LET n == TLCEval(IdxOf(Sub(Sub(x, 1), K(id)), Sub(Y, 8), id)) IN
            \E ix \in {IF W.idx[id].st \in {"ok", "nomod"} /\ n.st \notin {"ok", "nomod"} THEN [n EXCEPT !.st = "ok"] ELSE n} : Serve(id, ix)
       ELSE IF DOMAIN lib = {} THEN Integrate
       ELSE LET id == Pick(Sub(Y, 4), InLib) IN
            IF k = 12 THEN Remove(id)
            ELSE IF k < 16 THEN SwitchMod(id, TRUE)
            ELSE IF k = 16 THEN SwitchMod(id, FALSE)
            ELSE IF k < 19 THEN \E v \in {Pick(Sub(Y, 5), SeqOf(DOMAIN lib[id].vers))} : SelectVer(id, v)
            ELSE IF k = 19 THEN Profile(Pick(Sub(Y, 5), <<"One", "Two", "x \" y">>))
            ELSE IF k < 22 THEN Trust
            ELSE SetRefuse(B2(Sub(Y, 6)))
MCNext == Len(hist) < Depth /\ UNCHANGED x /\ Step /\ hist' = Append(hist, Obs')
MCSpec == MCInit /\ [][MCNext]_all
Start0 == [files |-> {}]
Out == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([world |-> [rel |-> {[id |-> id, v |-> v, name |-> Name(id, v)] @@ W.rel[id][v] : <<id, v>> \in UNION {{<<id, v>> : v \in DOMAIN W.rel[id]} : id \in Range(Ids)}},
     idx |-> LET ix == (WorldOf(Sub(x, 1))).idx IN {IdxView(id, ix[id]) : id \in DOMAIN ix}, baked |-> W.baked],
     files |-> FilesAt(Sub(x, 2)), shared |-> B2(Sub(x, 4)), set |-> [kind |-> CfgKind(Sub(x, 3)), platform |-> Pick(Sub(x, 5), <<"Steam", "", "Gone">>)] @@ CfgView(Cfg0(Sub(x, 3))), h |-> hist])>>, IOEnv.OUT)
=============================================================================

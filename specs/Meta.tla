-------------------------------- MODULE Meta --------------------------------
(* Mod metadata documents. A document chooses one option per field; Decode   *)
(* says whether it is accepted and what mod it describes.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxDev, Rand
VARIABLES doc, dev, fin
Req == {"name", "mod_id", "version"}
OptStr == {"author", "description", "game_build", "homepage"}
Actors == {"persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"}
Fields == Req \cup OptStr \cup Actors \cup {"schema_version", "sync", "download", "dependencies", "integrator", "cpp_loader_dlls", "extra"}
JsonVals == {"str", "str2", "arr", "obj", "num", "bool", "nested"}
Reqs == {"*", ">=1.2.3", "<=2.1.0", "^1", "~1.2", "=1.0.0", "1.2", ">=1, <2"}
BadReqs == {"abc", "", ">>1", "1.2.3.4"}
DepOpts == {<<"none">>, <<"empty">>, <<"null">>, <<"list">>} \cup {<<"one", r>> : r \in Reqs \cup BadReqs} \cup {<<"obj", r>> : r \in Reqs \cup BadReqs}
       \cup {<<"objdl", r>> : r \in {"*", "^1"}} \cup {<<"objbad", "*">>, <<"objnov", "*">>, <<"many", "*">>, <<"num", "*">>}
Options(f) == CASE f = "schema_version" -> {"none", "null", "0", "1", "2", "3", "s2", "neg", "frac", "huge"}
                [] f \in Req -> {"A", "B", "e", "none", "null", "num"}
                [] f \in OptStr -> {"none", "null", "A", "B", "e", "num", "arr"}
                [] f = "sync" -> {"none", "null", "serverclient", "server", "client", "noneval", "bad", "num"}
                [] f = "download" -> {"none", "null", "dl1", "dl2", "badtype", "nourl", "str", "extra"}
                [] f \in Actors -> {"none", "null"} \cup JsonVals
                [] f = "dependencies" -> DepOpts
                [] f = "integrator" -> {"none", "empty", "null", "list", "one", "two", "many", "withnull"}
                [] f = "cpp_loader_dlls" -> {"none", "empty", "null", "two", "rev", "badnum"}
                [] OTHER -> {"none", "obj"}
Default(f) == CASE f \in Req -> "A" [] f = "dependencies" -> <<"none">> [] OTHER -> "none"
\* ---- meaning
Schema(d) == CASE d["schema_version"] \in {"none", "null", "1"} -> 1
               [] d["schema_version"] = "2" -> 2
               [] OTHER -> 0
StrOk(o) == o \in {"A", "B", "e"}
OptOk(o) == o \in {"none", "null"} \/ StrOk(o)
SyncOk(o) == o \in {"none", "null", "serverclient", "server", "client", "noneval"}
DlOk(o) == o \in {"none", "null", "dl1", "dl2", "extra"}
DepOk(o) == o[1] \in {"none", "empty", "many"} \/ (o[1] \in {"one", "obj", "objdl"} /\ o[2] \in Reqs)
IntOk(o) == o \notin {"null", "list"}
DllOk(o) == o \notin {"null", "badnum"}
Common(d) == /\ \A f \in Req : StrOk(d[f])
             /\ \A f \in OptStr : OptOk(d[f])
             /\ SyncOk(d["sync"]) /\ DlOk(d["download"])
Accepted(d) == CASE Schema(d) = 1 -> Common(d)
                 [] Schema(d) = 2 -> Common(d) /\ DepOk(d["dependencies"]) /\ IntOk(d["integrator"]) /\ DllOk(d["cpp_loader_dlls"])
                 [] OTHER -> FALSE
Norm(o) == IF o = "null" THEN "none" ELSE o
Meaning(d) == [f \in Req \cup OptStr \cup {"sync", "download"} |-> IF d[f] = "extra" THEN "dl1" ELSE Norm(d[f])]
Extra(d) == IF Schema(d) = 1
            THEN [integrator |-> "actors", actors |-> [f \in Actors |-> Norm(d[f])], dependencies |-> <<"none">>, dlls |-> "none"]
            ELSE [integrator |-> IF d["integrator"] = "empty" THEN "none" ELSE d["integrator"], actors |-> [f \in Actors |-> "none"],
                  dependencies |-> IF d["dependencies"] = <<"empty">> THEN <<"none">> ELSE d["dependencies"],
                  dlls |-> IF d["cpp_loader_dlls"] = "empty" THEN "none" ELSE d["cpp_loader_dlls"]]
\* ---- exploration: few deviations from a minimal document, or a random document
Init == doc = [f \in Fields |-> Default(f)] /\ dev = 0 /\ fin = FALSE
Deviate == /\ ~fin /\ ~Rand /\ dev < MaxDev
           /\ \E f \in Fields : doc[f] = Default(f) /\ \E o \in Options(f) \ {Default(f)} : doc' = [doc EXCEPT ![f] = o]
           /\ dev' = dev + 1 /\ UNCHANGED fin
\* biased towards accepted documents
Good(f) == CASE f = "schema_version" -> {"1", "2", "none"} [] f \in Req -> {"A", "B"} [] f = "dependencies" -> {o \in DepOpts : DepOk(o)}
             [] f = "integrator" -> {"none", "one", "two", "many", "withnull", "empty"} [] f = "cpp_loader_dlls" -> {"none", "two", "rev"}
             [] f = "sync" -> {o \in Options(f) : SyncOk(o)} [] f = "download" -> {o \in Options(f) : DlOk(o)} [] f \in OptStr -> {"none", "null", "A", "e"} [] OTHER -> Options(f)
Roll == /\ ~fin /\ Rand
        /\ doc' = [f \in Fields |-> IF RandomElement(1..25) = 1 THEN RandomElement(Options(f)) ELSE RandomElement(Good(f))]
        /\ fin' = TRUE /\ UNCHANGED dev
Next == Deviate \/ Roll
Spec == Init /\ [][Next]_<<doc, dev, fin>>
\* an upgraded document means what the same fields mean in the new schema
UpgradeOk == Accepted(doc) /\ Schema(doc) = 1 =>
    LET d2 == [doc EXCEPT !["schema_version"] = "2", !["dependencies"] = <<"none">>, !["integrator"] = "none", !["cpp_loader_dlls"] = "none"]
    IN Accepted(d2) /\ Meaning(d2) = Meaning(doc)
Out == (Rand => fin) => CSVWrite("%1$s", <<ToJson([doc |-> doc, ok |-> Accepted(doc), mod |-> Meaning(doc), extra |-> Extra(doc)])>>, IOEnv.OUT)
=============================================================================

-------------------------------- MODULE Deps --------------------------------
(* Mods, the requirements they place on each other, and the version chosen for   *)
(* each. Versions are release versions <<major, minor, patch>>; a requirement is *)
(* a sequence of comparators which must all accept (none: anything goes); a part *)
(* a comparator leaves out is -1.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES own,     \* id -> the versions the mod was first added with (only mods that were added)
          reqs,    \* set of [from, to, req]: every requirement ever placed
          dls,     \* id -> the places a dependency can be fetched from, each once
          last     \* the batch just added
vars == <<own, reqs, dls, last>>
Less(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ (v[2] < w[2] \/ (v[2] = w[2] /\ v[3] < w[3])))
Leq(v, w) == v = w \/ Less(v, w)
Z(n) == IF n = -1 THEN 0 ELSE n
\* the half open interval of versions that agree with the parts a comparator gives
From(c) == <<c.a, Z(c.b), Z(c.c)>>
Above(c) == IF c.b = -1 THEN <<c.a + 1, 0, 0>> ELSE IF c.c = -1 THEN <<c.a, c.b + 1, 0>> ELSE <<c.a, c.b, c.c + 1>>
In(v, lo, hi) == Leq(lo, v) /\ Less(v, hi)
CaretTop(c) == IF c.b = -1 THEN <<c.a + 1, 0, 0>>
               ELSE IF c.a > 0 THEN <<c.a + 1, 0, 0>>
               ELSE IF c.c = -1 THEN <<0, c.b + 1, 0>>
               ELSE IF c.b > 0 THEN <<0, c.b + 1, 0>>
               ELSE <<0, 0, c.c + 1>>
Accepts(c, v) ==
  CASE c.op \in {"=", "*"} -> In(v, From(c), Above(c))
    [] c.op = ">" -> Leq(Above(c), v)
    [] c.op = ">=" -> Leq(From(c), v)
    [] c.op = "<" -> Less(v, From(c))
    [] c.op = "<=" -> Less(v, Above(c))
    [] c.op = "~" -> In(v, From(c), IF c.b = -1 THEN <<c.a + 1, 0, 0>> ELSE <<c.a, c.b + 1, 0>>)
    [] c.op \in {"^", ""} -> In(v, From(c), CaretTop(c))
Matches(r, v) == \A j \in DOMAIN r : Accepts(r[j], v)
On(id) == {q \in reqs : q.to = id}
Allowed(id, v) == \A q \in On(id) : Matches(q.req, v)
Known == DOMAIN own \cup {q.to : q \in reqs}
Candidates(id) == IF id \in DOMAIN own THEN {v \in own[id] : Allowed(id, v)} ELSE {}
Newest(S) == CHOOSE v \in S : \A w \in S : Leq(w, v)
Resolved == {id \in Known : Candidates(id) # {}}
Choice1 == [id \in Resolved |-> Newest(Candidates(id))]
Unresolved == Known \ Resolved
Blame(id) == {<<q.from, q.req>> : q \in On(id)}
Dependents(id) == {q.from : q \in On(id)}

\* a batch is a sequence of [id, versions, deps], deps a sequence of [id, req, dl]
Range(s) == {s[j] : j \in DOMAIN s}
NewOwn(b, o) == LET ids == {b[j].id : j \in DOMAIN b} \ DOMAIN o IN
   [id \in DOMAIN o \cup ids |-> IF id \in DOMAIN o THEN o[id] ELSE LET j == CHOOSE j \in DOMAIN b : b[j].id = id /\ \A k \in 1..(j - 1) : b[k].id # id IN Range(b[j].versions)]
Placed(b) == UNION {{[from |-> b[j].id, to |-> d.id, req |-> d.req] : d \in Range(b[j].deps)} : j \in DOMAIN b}
Fetch(b, id) == UNION {{d.dl : d \in {d \in Range(b[j].deps) : d.id = id /\ d.dl # ""}} : j \in DOMAIN b}
Wanted(b) == UNION {{d.id : d \in Range(b[j].deps)} : j \in DOMAIN b}
AddMods(b) ==
  /\ own' = NewOwn(b, own)
  /\ reqs' = reqs \cup Placed(b)
  /\ dls' = [id \in DOMAIN dls \cup Wanted(b) |-> (IF id \in DOMAIN dls THEN dls[id] ELSE {}) \cup Fetch(b, id)]
  /\ last' = b
Init == own = [id \in {} |-> {}] /\ reqs = {} /\ dls = [id \in {} |-> {}] /\ last = <<>>

\* ---- properties of the design
ChoiceOk == \A id \in Resolved : Choice1[id] \in own[id] /\ (\A q \in On(id) : Matches(q.req, Choice1[id])) /\ \A v \in own[id] : Less(Choice1[id], v) => \E q \in On(id) : ~Matches(q.req, v)
BlameOk == \A id \in Unresolved : (id \in DOMAIN own) => \A v \in own[id] : \E p \in Blame(id) : ~Matches(p[2], v)
Conj == \A id \in Known : \A q \in On(id) : q.from \in DOMAIN own
\* once its versions are known, a mod that cannot be resolved stays so, and the chosen version never becomes newer
Sticky == [][\A id \in DOMAIN own : (id \in Unresolved => id \in Unresolved') /\ (id \in Resolved /\ id \in Resolved' => Leq(Choice1'[id], Choice1[id]))]_vars
=============================================================================

-------------------------------- MODULE Usmap --------------------------------
(* Mappings: names, enums and struct schemas; look-up of properties along the   *)
(* inheritance chain; headers of unversioned property lists, which say which    *)
(* slots of a type are present and which of those are zero.                     *)
EXTENDS Choice, Wire
Byte1 == 0 Bool1 == 1 Int1 == 2 Float1 == 3 Obj1 == 4 Name1 == 5 Double1 == 7 Array1 == 8 Struct1 == 9 Str1 == 10 UInt641 == 18 UInt321 == 19 UInt161 == 20 Int641 == 21 Int161 == 22 Int81 == 23
Map1 == 24 Set1 == 25 Enum1 == 26
\* ---- layout. A name is stored with a length one larger than its number of bytes.
NmT(n) == <<[t |-> "uname", v |-> n]>>
At(names, n) == (CHOOSE j \in DOMAIN names : names[j] = n) - 1
Ref(d, n) == <<[t |-> "i32", v |-> At(d.names, n), ix |-> TRUE]>>
N32(n) == <<[t |-> "u32", v |-> n, cnt |-> TRUE]>>
RECURSIVE TypeT(_, _)
TypeT(d, t) == <<[t |-> "u8", v |-> t.t, ty |-> TRUE]>> \o
  (CASE t.t \in {Array1, Set1} -> TypeT(d, t.in)
     [] t.t = Map1 -> TypeT(d, t.in) \o TypeT(d, t.val)
     [] t.t = Enum1 -> TypeT(d, t.in) \o Ref(d, t.n)
     [] t.t = Struct1 -> Ref(d, t.n)
     [] OTHER -> <<>>)
PropT(d, p) == U16(p.slot) \o U8(p.dim) \o Ref(d, p.name) \o TypeT(d, p.type)
SchemaT(d, s) == Ref(d, s.name) \o Ref(d, s.super) \o U16(s.count) \o U16(Len(s.props)) \o Map(LAMBDA j : PropT(d, s.props[j]), Len(s.props))
EnumT(d, n) == Ref(d, n.name) \o U8(Len(n.vals)) \o Map(LAMBDA j : Ref(d, n.vals[j]), Len(n.vals))
ExtT(d) == IF d.ext = "none" THEN <<>>
           ELSE IF d.ext = "zero" THEN U32(0)
           ELSE U32(1) \o U16(Len(d.paths)) \o Map(LAMBDA j : Str(d.paths[j]), Len(d.paths))
                \o Map(LAMBDA j : IF Len(d.paths) > 255 THEN <<[t |-> "u16", v |-> d.schemas[j].path, path |-> Len(d.paths)]>> ELSE <<[t |-> "u8", v |-> d.schemas[j].path, path |-> Len(d.paths)]>>, Len(d.schemas))
PayloadT(d) == N32(Len(d.names)) \o Map(LAMBDA j : NmT(d.names[j]), Len(d.names))
  \o N32(Len(d.enums)) \o Map(LAMBDA j : EnumT(d, d.enums[j]), Len(d.enums))
  \o N32(Len(d.schemas)) \o Map(LAMBDA j : SchemaT(d, d.schemas[j]), Len(d.schemas)) \o Lbl("body") \o ExtT(d)
HeadT(d) == Raw(<<48, 196>>) \o U8(d.version) \o (IF d.version = 0 THEN <<>> ELSE IF d.versioning = {} THEN U8(0)
     ELSE U8(1) \o I32(d.ov) \o I32(d.ov5) \o I32(Len(d.cvs)) \o Map(LAMBDA j : <<[t |-> "cv", v |-> d.cvs[j][1]]>> \o I32(d.cvs[j][2]), Len(d.cvs)) \o U32(d.netcl)) \o U8(d.method)
Versioned(d) == d.version > 0 /\ d.versioning # {}

\* ---- what the file denotes. A property of n elements takes n slots.
Elems(s) == Cat([j \in DOMAIN s.props |-> [k \in 1..s.props[j].dim |-> [name |-> s.props[j].name, slot |-> s.props[j].slot + k - 1, dim |-> s.props[j].dim, idx |-> k - 1, type |-> s.props[j].type]]])
SchemaOf(d, n) == LET m == SelectSeq(d.schemas, LAMBDA s : s.name = n) IN m
RECURSIVE Chain(_, _, _)
Chain(d, n, seen) == LET m == SchemaOf(d, n) IN IF m = <<>> \/ n \in seen THEN <<>> ELSE <<m[1]>> \o Chain(d, m[1].super, seen \cup {n})
RECURSIVE SumCount(_)
SumCount(c) == IF c = <<>> THEN 0 ELSE c[1].count + SumCount(Tail(c))
\* all elements along the chain with their global slot
Linear(d, n) == LET c == Chain(d, n, {}) IN Cat([j \in DOMAIN c |-> LET base == SumCount(SubSeq(c, 1, j - 1)) es == Elems(c[j]) IN [k \in DOMAIN es |-> [p |-> es[k], g |-> base + es[k].slot]]])
Nothing == [found |-> FALSE]
\* the nearest type along the chain that declares the property decides
RECURSIVE InChain(_, _, _, _)
InChain(c, n, dup, base) ==
  IF c = <<>> THEN Nothing
  ELSE LET m == SelectSeq(c[1].props, LAMBDA p : p.name = n /\ dup < p.dim) IN
       IF m = <<>> THEN InChain(Tail(c), n, dup, base + c[1].count)
       ELSE [found |-> TRUE, p |-> [name |-> n, slot |-> m[1].slot + dup, dim |-> m[1].dim, idx |-> dup, type |-> m[1].type], g |-> base + m[1].slot + dup]
\* chains: type name -> its chain (for types that are not declared: none)
RECURSIVE Find(_, _, _, _)
Find(chains, anc, n, dup) ==
  IF anc = <<>> THEN Nothing
  ELSE LET last == anc[Len(anc)] r == IF last \in DOMAIN chains THEN InChain(chains[last], n, dup, 0) ELSE Nothing IN
       IF r.found THEN r ELSE Find(chains, SubSeq(anc, 1, Len(anc) - 1), last, dup)

\* ---- headers: fragments skip some slots and then name some; a mask tells which named slots of "zeros" fragments are zero
RECURSIVE Firsts(_, _)
Firsts(fs, at) == IF fs = <<>> THEN <<>> ELSE <<at + fs[1].skip>> \o Firsts(Tail(fs), at + fs[1].skip + fs[1].num)
Present(fs) == LET f == Firsts(fs, 0) IN Cat([j \in DOMAIN fs |-> [k \in 1..fs[j].num |-> [g |-> f[j] + k - 1, masked |-> fs[j].zeros]]])
RECURSIVE WithMask(_, _)
WithMask(ps, mask) == IF ps = <<>> THEN <<>> ELSE IF ~ps[1].masked THEN <<[g |-> ps[1].g, zero |-> FALSE]>> \o WithMask(Tail(ps), mask)
                      ELSE <<[g |-> ps[1].g, zero |-> mask[1] = 1]>> \o WithMask(Tail(ps), Tail(mask))
Masked(fs) == Len(SelectSeq(Present(fs), LAMBDA p : p.masked))
MaskBytes(n) == IF n = 0 THEN 0 ELSE IF n <= 8 THEN 1 ELSE IF n <= 16 THEN 2 ELSE 4 * ((n + 31) \div 32)
Slots(h) == WithMask(Present(h.frs), h.mask)
Pow(j) == CASE j = 0 -> 1 [] j = 1 -> 2 [] j = 2 -> 4 [] j = 3 -> 8 [] j = 4 -> 16 [] j = 5 -> 32 [] j = 6 -> 64 [] OTHER -> 128
RECURSIVE Val(_, _)
Val(bits, j) == IF bits = <<>> THEN 0 ELSE (bits[1] * Pow(j)) + Val(Tail(bits), j + 1)
MaskT(h) == Raw([j \in 1..(Len(h.bits) \div 8) |-> Val(SubSeq(h.bits, ((j - 1) * 8) + 1, j * 8), 0)])
HeaderT(h) == Map(LAMBDA j : U16(h.frs[j].skip + (IF h.frs[j].zeros THEN 128 ELSE 0) + (IF j = Len(h.frs) THEN 256 ELSE 0) + (h.frs[j].num * 512)), Len(h.frs)) \o MaskT(h)
HasValues(h) == \E j \in DOMAIN Slots(h) : ~Slots(h)[j].zero

\* canonical encoding of slots (ascending), with runs cut after `cap`
RECURSIVE RunLen(_, _)
RunLen(ss, cap) == IF cap > 1 /\ Len(ss) > 1 /\ ss[2].g = ss[1].g + 1 THEN 1 + RunLen(Tail(ss), cap - 1) ELSE 1
RECURSIVE Frs(_, _, _, _)
Frs(ss, next, cap, always) ==
  IF ss = <<>> THEN <<>>
  ELSE IF ss[1].g - next > 127 THEN <<[skip |-> 127, num |-> 0, zeros |-> FALSE]>> \o Frs(ss, next + 127, cap, always)
  ELSE LET n == RunLen(ss, cap) run == SubSeq(ss, 1, n) IN
       <<[skip |-> ss[1].g - next, num |-> n, zeros |-> always \/ \E j \in 1..n : run[j].zero]>> \o Frs(SubSeq(ss, n + 1, Len(ss)), ss[1].g + n, cap, always)
MaskOf(fs, ss) == LET ps == Present(fs) js == SelectSeq([j \in DOMAIN ps |-> j], LAMBDA j : ps[j].masked) IN [k \in DOMAIN js |-> IF ss[js[k]].zero THEN 1 ELSE 0]
\* `pad` fills the unused bits of the mask
Header(ss, cap, always, pad) ==
  LET f0 == Frs(ss, 0, cap, always) fs == IF f0 = <<>> THEN <<[skip |-> cap, num |-> 0, zeros |-> always]>> ELSE f0
      m == MaskOf(fs, ss) w == 8 * MaskBytes(Len(m)) IN
  [frs |-> fs, mask |-> m, bits |-> m \o [j \in 1..(w - Len(m)) |-> pad]]
=============================================================================

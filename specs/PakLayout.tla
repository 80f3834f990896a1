------------------------------ MODULE PakLayout ------------------------------
(* On-disk layout of pak files, versions 1..11 (8 = 8b), as produced and as  *)
(* accepted. e : [name, k, n, z] = entry name, content kind, length, zipped. *)
EXTENDS Wire
Magic == <<[t |-> "u32", v |-> 1517228769]>>          \* 0x5A6F12E1
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Blocks(e, o) == IF e.z THEN CeilDiv(e.n, o.bs) ELSE 0

\* o : options of a file: bs block size, mp mount point, unc block-size field of unzipped entries,
\*     meth method number of zipped entries, names list of compression slots, rel in-file offset field
EHdr(ver, e, k, o, off) == LET id == S(k) nb == Blocks(e, o) base == IF ver < 5 THEN "0" ELSE "e" \o id IN
     off \o Pos64("d" \o id \o "end", "d" \o id) \o U64(e.n) \o U32(IF e.z THEN o.meth ELSE 0)
  \o (IF ver = 1 THEN U64(0) ELSE <<>>)
  \o Sha1("d" \o id, "d" \o id \o "end")
  \o (IF ver >= 3
      THEN (IF e.z THEN U32(nb) \o Map(LAMBDA j : Pos64("b" \o id \o "x" \o S(j), base) \o Pos64("b" \o id \o "x" \o S(j + 1), base), nb) ELSE <<>>)
           \o U8(0) \o U32(IF ~e.z THEN o.unc ELSE IF nb = 1 THEN e.n ELSE o.bs)
      ELSE <<>>)

EData(e, k, o) == LET id == S(k) nb == Blocks(e, o) IN
     Lbl("d" \o id)
  \o (IF e.z
      THEN Map(LAMBDA j : Lbl("b" \o id \o "x" \o S(j)) \o <<[t |-> "z", k |-> e.k, n |-> e.n, from |-> (j - 1) * o.bs, to |-> Min2(j * o.bs, e.n)]>>, nb)
           \o Lbl("b" \o id \o "x" \o S(nb + 1))
      ELSE <<[t |-> "data", k |-> e.k, n |-> e.n, from |-> 0, to |-> e.n]>>)
  \o Lbl("d" \o id \o "end")

Body(ver, es, o) == Map(LAMBDA k : Lbl("e" \o S(k)) \o EHdr(ver, es[k], k, o, U64(0)) \o EData(es[k], k, o), Len(es))

\* classic index (versions below 10), listing entries in the order given by perm
ClassicIndex(ver, es, o, perm) ==
     Lbl("idx") \o Str(o.mp) \o U32(Len(es))
  \o Map(LAMBDA p : LET k == perm[p] IN Str(es[k].name) \o EHdr(ver, es[k], k, o, Pos64("e" \o S(k), "0")), Len(es))
  \o Lbl("idxend")

\* hashed index (versions 10, 11): directory tree plus bit-packed records
Enc(e, k, o) == LET nb == Blocks(e, o)
                    bsf == IF ~e.z THEN 0 ELSE IF o.bs % 2048 = 0 /\ o.bs \div 2048 < 63 THEN o.bs \div 2048 ELSE 63
                    \* bit 31 offset is 32 bit, 30 size is 32 bit, 29 compressed size is 32 bit
                    wide == o.wide
                    hi == (IF e.z THEN o.meth ELSE 0) * 128 + (nb \div 1024)   \* bits 16.. of the word without the width bits
                IN  Lbl("enc" \o S(k))
                 \o U16((nb % 1024) * 64 + bsf)
                 \o U16(hi + (IF wide THEN 0 ELSE 57344))
                 \o (IF bsf = 63 THEN U32(o.bs) ELSE <<>>)
                 \o (IF wide THEN Pos64("e" \o S(k), "0") \o U64(e.n) ELSE Pos(4, "e" \o S(k), "0") \o U32(e.n))
                 \o (IF e.z THEN (IF wide THEN Pos64("d" \o S(k) \o "end", "d" \o S(k)) ELSE Pos(4, "d" \o S(k) \o "end", "d" \o S(k))) ELSE <<>>)
                 \o (IF nb > 1 THEN Map(LAMBDA j : Pos(4, "b" \o S(k) \o "x" \o S(j + 1), "b" \o S(k) \o "x" \o S(j)), nb) ELSE <<>>)

\* dirs : Seq([d : directory name, fs : Seq([f : file name, k : entry number])])
HashIndex(ver, es, o, dirs) ==
     Lbl("idx") \o Str(o.mp) \o U32(Len(es)) \o U64(12345)
  \o (IF o.phi THEN U32(1) \o Pos64("phi", "0") \o Pos64("phiend", "phi") \o Sha1("phi", "phiend") ELSE U32(0))
  \o U32(1) \o Pos64("fdi", "0") \o Pos64("fdiend", "fdi") \o Sha1("fdi", "fdiend")
  \o Pos(4, "encend", "encs") \o Lbl("encs") \o Map(LAMBDA k : Enc(es[k], k, o), Len(es)) \o Lbl("encend")
  \o U32(0) \o Lbl("idxend")
  \o (IF o.phi THEN Lbl("phi") \o U32(0) \o U32(0) \o Lbl("phiend") ELSE <<>>)
  \o Lbl("fdi") \o U32(Len(dirs))
  \o Map(LAMBDA d : Str(dirs[d].d) \o U32(Len(dirs[d].fs))
         \o Map(LAMBDA x : Str(dirs[d].fs[x].f) \o Pos(4, "enc" \o S(dirs[d].fs[x].k), "encs"), Len(dirs[d].fs)), Len(dirs))
  \o Lbl("fdiend")

Footer(ver, o) ==
     (IF ver >= 7 THEN Zeros(16) ELSE <<>>)
  \o (IF ver >= 4 THEN U8(0) ELSE <<>>)
  \o Lbl("magic") \o Magic \o U32(ver)
  \o Pos64("idx", "0") \o Pos64("idxend", "idx") \o Sha1("idx", "idxend")
  \o (IF ver = 9 THEN U8(0) ELSE <<>>)
  \o (IF ver >= 8 THEN Map(LAMBDA j : <<[t |-> "name32", v |-> o.names[j]]>>, 5) ELSE <<>>)

Classic(ver, es, o, perm) == Body(ver, es, o) \o ClassicIndex(ver, es, o, perm) \o Footer(ver, o)
Hashed(ver, es, o, dirs)  == Body(ver, es, o) \o HashIndex(ver, es, o, dirs) \o Footer(ver, o)

\* What the streaming writer promises to produce: entries in write order, index sorted by name.
NoNames == <<"", "", "", "", "">>
ZlibOnly == <<"Zlib", "", "", "", "">>
WriterOpts(bs, mp) == [bs |-> bs, mp |-> mp, unc |-> 65536, meth |-> 1, names |-> ZlibOnly]
=============================================================================

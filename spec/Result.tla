------------------------------- MODULE Result -------------------------------
(* The repair as a function: the wheel a repair produces, constructed from the
   wheel, the system and the request.  The clauses of Clauses.tla say what may
   be observed of it; MCRepair checks that the constructed result satisfies all
   of them, and that repairing is idempotent and its result independent of the
   machine it was made on.  Contents of files are symbolic.                   *)
EXTENDS Report

Bionic(pl) == pl.A.libc = "android"
WithPath(pl, e, p) == IF Bionic(pl) THEN [e EXCEPT !.runpath = p] ELSE [e EXCEPT !.rpath = p, !.runpath = ""]
\* a binary of the wheel that depended on libraries outside
NewMemberElf(pl, wi, n, host) ==
  WithPath(pl, [Entry(wi, n).e EXCEPT !.needed = MapNeeded(pl, wi, n)], NewRpath(pl, wi, n, host))
\* the copy of the library at r.  (If several binaries depend on it and see
\* different files behind one of its own dependencies, any of them may win.)
GraftPick(pl, r, s) == CHOOSE x \in GraftMap(pl, r, s) : TRUE
NewGraftElf(pl, r) ==
  LET e == pl.A.fs[r].e
      nd == SelectSeq(SeqMap(LAMBDA s : GraftPick(pl, r, s), e.needed), LAMBDA s : s # "")
      dep == ToSet(nd) \cap {pl.gname[q] : q \in pl.grafts} # {}
  IN WithPath(pl, [e EXCEPT !.soname = pl.gname[r], !.needed = nd, !.runpath = "", !.rpath = ""], IF dep THEN "$ORIGIN" ELSE "")

Changed(m) == [m EXCEPT !.sha = "new(" \o m.sha \o ")", !.b64 = "new(" \o m.b64 \o ")"]
NewMember(pl, st, wi, m, host) ==
  LET k == [m EXCEPT !.mode = IF m.dir THEN 493 ELSE UnpackMode(m), !.fmt = IF m.dir THEN 4 ELSE 8] IN
  IF m.n \in Moved(pl) THEN [Changed(k) EXCEPT !.elf = FALSE]          \* the launcher
  ELSE IF m.n \in pl.touched THEN [Changed(k) EXCEPT !.e = NewMemberElf(pl, wi, m.n, host)]
  ELSE IF m.n \in {RecordName(wi), MetaDir(wi) \o "/WHEEL"} THEN Changed(k) ELSE k
\* directories leading to a file
RECURSIVE Above(_)
Above(p) == IF Occ(p, "/") = {} THEN {} ELSE LET d == Dirname(p) IN {d} \cup Above(d)
OutWheel(pl, st, wi, host) ==
  LET kept == SelectSeq(wi.ents, LAMBDA m : m.n \notin SignatureNames(wi))
      members == SeqMap(LAMBDA m : NewMember(pl, st, wi, m, host), kept)
      moved == SeqMap(LAMBDA n : LET m == Entry(wi, n) IN
                 [Changed(m) EXCEPT !.n = MovedScript(wi, n), !.mode = UnpackMode(m), !.fmt = 8, !.e = NewMemberElf(pl, wi, n, host)], SortedStrs(Moved(pl)))
      firsts == {r \in pl.grafts : \A q \in pl.grafts : pl.gname[q] = pl.gname[r] => ~StrLess(q, r)}
      grafts == SeqMap(LAMBDA r : LET f == pl.A.fs[r] IN
                 [Entry(wi, RecordName(wi)) EXCEPT !.n = GraftPath(pl, r), !.elf = TRUE, !.mode = OrBits(f.mode, 128), !.fmt = 8,
                    !.sha = "new(" \o f.sha \o ")", !.b64 = "new(" \o f.sha \o ")", !.e = NewGraftElf(pl, r)],
                 SortedStrs({r \in firsts : ~HasEntry(wi, GraftPath(pl, r))}))
      files == members \o moved \o grafts
      dirs == UNION {Above(files[i].n) : i \in 1..Len(files)}
      mkdir(d) == [Entry(wi, RecordName(wi)) EXCEPT !.n = d \o "/", !.dir = TRUE, !.elf = FALSE, !.mode = 493, !.fmt = 4]
      all == ToSet(files) \cup {mkdir(d) : d \in {x \in dirs : ~\E i \in 1..Len(files) : files[i].n = x \o "/"}}
      order == CanonOrder({f.n : f \in {g \in all : ~g.dir}}, {Take(f.n, Len(f.n) - 1) : f \in {g \in all : g.dir}})
      ents == SeqMap(LAMBDA n : CHOOSE f \in all : f.n = n, order)
      names == SelectSeq(order, LAMBDA n : ~EndsWith(n, "/"))
  IN [wi EXCEPT !.fname = OutName(pl, st, wi), !.ents = ents,
        !.record = SeqMap(LAMBDA n : IF n = RecordName(wi) THEN [n |-> n, h |-> "", s |-> ""]
                                     ELSE LET f == CHOOSE x \in all : x.n = n IN [n |-> n, h |-> "sha256=" \o f.b64, s |-> ToString(f.size)], names),
        !.wmeta = IF st.update_tags
                  THEN [wi.wmeta EXCEPT !.tags = SortedStrs(OutTags(pl, wi)), !.purelib = IF StopsPure(pl, wi) THEN "false" ELSE @]
                  ELSE @]
=============================================================================

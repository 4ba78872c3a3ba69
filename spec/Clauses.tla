------------------------------ MODULE Clauses ------------------------------
(* What a repaired wheel has to look like, property by property: each operator
   yields the set of violated clauses. *)
EXTENDS Repair, Archive

Need(c, name) == IF c THEN {} ELSE {name}
Ents(w) == ToSet(w.ents)
Files(w) == {e \in Ents(w) : ~e.dir}
FileNames(w) == {e.n : e \in Files(w)}
DirNames(w) == {Take(e.n, Len(e.n) - 1) : e \in {x \in Ents(w) : x.dir}}
IsElfEnt(w, n) == HasEntry(w, n) /\ ~Entry(w, n).dir /\ Entry(w, n).elf /\ Entry(w, n).e.bad = ""
MetaDir(w) == IF Len(w.dist) = 1 THEN w.dist[1] ELSE "?"
RecordName(w) == MetaDir(w) \o "/RECORD"
SignatureNames(w) == {RecordName(w) \o ".jws", RecordName(w) \o ".p7s"}
SbomName(w) == MetaDir(w) \o "/sboms/auditwheel.cdx.json"
SysOf(tr) == TLCEval(SysFs(tr.fs))

\* ------------------------------------------------ one repaired wheel
\* wi: input, wo: output, pl: plan (kind "ok"), st: step
GraftPath(pl, r) == pl.dest \o "/" \o pl.gname[r]
OutFs(wo) == WheelFs(wo)

\* C01: dependencies
Guaranteed(pl, n) == n \in pl.pol.wl \/ IsLoaderName(n) \/ (pl.A.libc = "android" /\ IsLibpython(n))
InOf(pl, wi, p) ==   \* input object of an output path
  LET g == {r \in pl.grafts : WDIR \o "/" \o GraftPath(pl, r) = p}
      m == {n \in Moved(pl) : WDIR \o "/" \o MovedScript(wi, n) = p}
  IN IF g # {} THEN CHOOSE r \in g : TRUE ELSE IF m # {} THEN WDIR \o "/" \o (CHOOSE n \in m : TRUE) ELSE p
RECURSIVE Closure(_, _, _, _, _, _)
\* failing clauses for the objects loaded from chain (last element is examined)
Closure(pl, st, wi, ofs, ifs, chain) ==
  LET p == Last(chain)
      ichain == SeqMap(LAMBDA x : InOf(pl, wi, x), chain)
      one(n) ==
        IF Guaranteed(pl, n) THEN {}
        ELSE LET t == RtLookup(ofs, chain, n)
                 exc == \E k \in 1..Len(st.exclude) : FnMatch(n, st.exclude[k])
                 isg == {r \in pl.grafts : pl.gname[r] = n}
                 was == IF Last(ichain) \in DOMAIN ifs /\ ifs[Last(ichain)].t = "elf" /\ n \in ToSet(ifs[Last(ichain)].e.needed)
                        THEN RtLookup(ifs, ichain, n) ELSE ""
             IN IF t = "" THEN
                  (IF isg # {} THEN {"graft-not-found:" \o n}
                   ELSE IF exc \/ Excluded([exclude |-> st.exclude], n) THEN {}
                   ELSE IF \E k \in 1..Len(st.exclude) : HasSub(st.exclude[k], "/") THEN {}   \* excluded by path
                   ELSE IF IsLibpython(n) THEN   \* files of another platform are not patched
                        (IF Within(Last(ichain), WDIR) /\ Drop(Last(ichain), Len(WDIR) + 1) \notin pl.A.used THEN {} ELSE {"libpython-kept:" \o n})
                   ELSE IF was # "" /\ Within(was, WDIR) /\ ~(\E m \in Moved(pl) : WDIR \o "/" \o m \in ToSet(ichain))
                        THEN {"wheel-library-lost:" \o n}
                   ELSE IF Last(ichain) \in DOMAIN ifs /\ ifs[Last(ichain)].t = "elf" /\ n \in ToSet(ifs[Last(ichain)].e.needed)
                           /\ was = "" /\ Within(Last(ichain), WDIR) THEN {}   \* could not be loaded before either
                   ELSE IF Last(ichain) \in DOMAIN ifs /\ ~Within(Last(ichain), WDIR) /\ pl.A.libc # "android" /\ was # ""
                           /\ Within(was, WDIR) THEN {"wheel-library-lost:" \o n}
                   ELSE {})
                ELSE IF isg # {} THEN
                  (IF \E r \in isg : t = WDIR \o "/" \o GraftPath(pl, r) /\ ofs[t].e.id = pl.A.fs[r].e.id
                   THEN (IF t \in ToSet(chain) THEN {} ELSE Closure(pl, st, wi, ofs, ifs, Append(chain, t)))
                   ELSE {"wrong-copy:" \o n})
                ELSE IF was # "" /\ Within(was, WDIR) /\ InOf(pl, wi, t) # was THEN {"wheel-library-changed:" \o n}
                ELSE IF t \in ToSet(chain) THEN {} ELSE Closure(pl, st, wi, ofs, ifs, Append(chain, t))
  IN IF Len(chain) > 12 THEN {} ELSE UNION {one(n) : n \in ToSet(ofs[p].e.needed)}

C01Wheel(pl, st, wi, wo) ==
  LET ofs == TLCEval(OutFs(wo))
      ifs == pl.A.fs
      member(n) == LET o == OutPath(pl, wi, n) IN
        IF ~IsElfEnt(wo, o) THEN {"member-missing:" \o n}
        ELSE Need(Entry(wo, o).e.needed = MapNeeded(pl, wi, n), "needed:" \o n)
      graft(r) == LET g == GraftPath(pl, r) IN
        IF ~IsElfEnt(wo, g) THEN {"graft-missing:" \o pl.gname[r]}
        ELSE LET e == Entry(wo, g).e IN
             Need(e.id = pl.A.fs[r].e.id, "graft-identity:" \o pl.gname[r])
             \cup Need(NeededOk(pl, r, pl.A.fs[r].e.needed, e.needed), "graft-needed:" \o pl.gname[r])
             \cup Need(pl.A.libc = "android" \/ \A k \in 1..Len(e.needed) : ~IsLibpython(e.needed[k])
                       \/ Excluded([exclude |-> st.exclude], e.needed[k]), "graft-libpython:" \o pl.gname[r])
      base == UNION {member(n) : n \in pl.A.used} \cup UNION {graft(r) : r \in pl.grafts}
  IN IF base # {} THEN base
     ELSE UNION {Closure(pl, st, wi, ofs, ifs, <<WDIR \o "/" \o OutPath(pl, wi, n)>>) : n \in pl.A.roots \cup Users(pl)}

\* C05: RECORD
C05Wheel(wo) ==
  LET rec == wo.record
      names == SeqMap(LAMBDA r : r.n, rec)
      rn == RecordName(wo)
  IN Need(Len(wo.dist) = 1 /\ HasEntry(wo, rn), "no-record")
     \cup Need(Cardinality(ToSet(names)) = Len(names), "duplicate-row")
     \cup Need(ToSet(names) = FileNames(wo), "rows-and-files-differ")
     \cup UNION {LET r == rec[i] IN
            IF r.n = rn THEN Need(r.h = "" /\ r.s = "", "record-row")
            ELSE IF ~HasEntry(wo, r.n) THEN {}
            ELSE Need(r.h = "sha256=" \o Entry(wo, r.n).b64, "hash:" \o r.n)
                 \cup Need(r.s = ToString(Entry(wo, r.n).size), "size:" \o r.n) : i \in 1..Len(rec)}
     \cup Need(FileNames(wo) \cap SignatureNames(wo) = {}, "stale-signature")
     \cup Need(Cardinality({e.n : e \in Ents(wo)}) = Len(wo.ents), "duplicate-entry")

\* C06: everything else is kept
SameElfBut(e, f) ==
  /\ e.soname = f.soname /\ e.id = f.id /\ e.mach = f.mach /\ e.osabi = f.osabi /\ e.interp = f.interp
  /\ e.isa = f.isa /\ e.abi = f.abi
  /\ ToSet(e.syms) = ToSet(f.syms)
  /\ {e.vn[i].v : i \in 1..Len(e.vn)} = {f.vn[i].v : i \in 1..Len(f.vn)}
\* --strip removes the symbol tables of what the repair examined and copied; nothing else does
Symbols(st, e, f) ==
  /\ e.comment = f.comment
  /\ IF st.strip THEN f.symtab = <<>> /\ ~f.debug ELSE ToSet(e.symtab) = ToSet(f.symtab) /\ e.debug = f.debug
\* nothing outside the output directory is altered
Untouched(s) == Need(\A p \in ToSet(s.changed) : ~StartsWith(p, "/@/in/") /\ ~StartsWith(p, "/@/sys/") /\ ~StartsWith(p, "/@/cwd/"), "foreign-file-changed")
C06Wheel(pl, st, wi, wo) ==
  LET rn == RecordName(wi)
      metaWheel == MetaDir(wi) \o "/WHEEL"
      gone == SignatureNames(wi)
      expected == ((FileNames(wi) \ gone) \cup {rn}) \cup {GraftPath(pl, r) : r \in pl.grafts}
                  \cup {MovedScript(wi, n) : n \in Moved(pl)}
      extra == FileNames(wo) \ expected
      keep(n) ==
        IF n \in gone \cup {rn} THEN {}
        ELSE IF n \in Moved(pl) THEN
             LET o == MovedScript(wi, n) IN
             IF ~IsElfEnt(wo, o) THEN {"lost:" \o n}
             ELSE Need(SameElfBut(Entry(wi, n).e, Entry(wo, o).e), "damaged:" \o n)
                  \cup Need(Symbols(st, Entry(wi, n).e, Entry(wo, o).e), "symbols:" \o n)
        ELSE IF ~HasEntry(wo, n) THEN {"lost:" \o n}
        ELSE LET a == Entry(wi, n) b == Entry(wo, n) IN
             Need(b.mode = UnpackMode(a), "mode:" \o n)
             \cup (IF n = metaWheel THEN
                     (IF st.update_tags THEN Need(wo.wmeta.other = wi.wmeta.other, "metadata:" \o n) ELSE Need(a.sha = b.sha, "content:" \o n))
                   ELSE IF n \in pl.touched \/ (st.strip /\ n \in pl.A.used) THEN
                     (IF ~IsElfEnt(wo, n) THEN {"damaged:" \o n}
                      ELSE Need(SameElfBut(a.e, b.e), "damaged:" \o n)
                           \cup Need(Symbols(st, a.e, b.e), "symbols:" \o n)
                           \cup (IF n \in pl.touched THEN {} ELSE Need(a.e.needed = b.e.needed /\ a.e.rpath = b.e.rpath /\ a.e.runpath = b.e.runpath, "dynamic:" \o n)))
                   ELSE IF n \in {GraftPath(pl, r) : r \in pl.grafts} THEN {}
                   ELSE Need(a.sha = b.sha, "content:" \o n))
      copy(r) ==
        LET g == GraftPath(pl, r) IN
        IF ~IsElfEnt(wo, g) THEN {"copy-lost:" \o pl.gname[r]}
        ELSE LET a == pl.A.fs[r].e b == Entry(wo, g).e IN
             Need(SameElfBut(a, [b EXCEPT !.soname = a.soname]), "damaged:" \o pl.gname[r])
             \cup Need(Symbols(st, a, b), "symbols:" \o pl.gname[r])
  IN UNION {keep(n) : n \in FileNames(wi)} \cup UNION {copy(r) : r \in pl.grafts}
     \cup Need(extra \subseteq {SbomName(wo)}, "invented-file")
     \cup Need(DirNames(wi) \subseteq DirNames(wo), "directory-lost")
     \cup Need(wo.dist = wi.dist, "metadata-directory")

\* C09: tags
C09Wheel(pl, st, wi, wo) ==
  IF ~st.update_tags
  THEN Need(wo.fname = wi.fname, "file-name") \cup Need(wo.wmeta = wi.wmeta, "metadata")
  ELSE LET plats == SortedPlats(wo.fname) IN
       Need(NameStem(wo.fname) = NameStem(wi.fname), "file-name-stem")
       \cup Need(ToSet(plats) = OutPlats(pl, wi), "file-name-platforms")
       \cup Need(plats = SortedStrs(ToSet(plats)), "file-name-order")
       \cup Need(ToSet(wo.wmeta.tags) = OutTags(pl, wi), "metadata-tags")
       \cup Need(Cardinality(ToSet(wo.wmeta.tags)) = Len(wo.wmeta.tags)
                 \/ Cardinality(ToSet(wi.wmeta.tags)) # Len(wi.wmeta.tags), "metadata-duplicates")
       \cup (IF StopsPure(pl, wi) THEN Need(wo.wmeta.purelib \in {"False", "false"}, "still-pure")
             ELSE Need(wo.wmeta.purelib = wi.wmeta.purelib, "purelib-changed"))

\* C14: search paths.  Bionic only ever reads DT_RUNPATH (so a stale DT_RPATH
\* beside it is harmless there); everywhere else the path has to be the DT_RPATH,
\* the one LD_LIBRARY_PATH does not override, with no DT_RUNPATH hiding it.
PathForm(pl, e, what) ==
  IF pl.A.libc = "android"
  THEN Need(e.rpath = "" \/ e.runpath # "", "path-is-not-runpath:" \o what)
  ELSE Need(e.runpath = "", "path-is-not-rpath:" \o what)
C14Wheel(pl, st, wi, wo, host) ==
  LET member(n) ==
        LET o == OutPath(pl, wi, n) IN
        IF ~IsElfEnt(wo, o) THEN {}
        ELSE LET e == Entry(wo, o).e a == Entry(wi, n).e IN
             IF n \in Users(pl) THEN Need(EffRpath(e) = NewRpath(pl, wi, n, host), "rpath:" \o n)
                                     \cup PathForm(pl, e, n)
             ELSE IF n \in pl.touched THEN {}
             ELSE Need(e.rpath = a.rpath /\ e.runpath = a.runpath, "rpath-of-other:" \o n)
      gnames == {pl.gname[r] : r \in pl.grafts}
      graft(r) == LET g == GraftPath(pl, r) IN
        IF ~IsElfEnt(wo, g) THEN {}
        ELSE LET e == Entry(wo, g).e
                 dep == ToSet(e.needed) \cap gnames # {}
             IN Need(EffRpath(e) = IF dep THEN "$ORIGIN" ELSE "", "graft-rpath:" \o pl.gname[r])
                \cup PathForm(pl, e, pl.gname[r])
  IN UNION {member(n) : n \in {m \in FileNames(wi) : Entry(wi, m).elf /\ Entry(wi, m).e.bad = "" /\ m \in pl.A.used}}
     \cup UNION {graft(r) : r \in pl.grafts \cap {x \in pl.grafts : ~HasEntry(wi, GraftPath(pl, x))}}

\* C16: canonical archive
C16Wheel(st, wi, wo) ==
  LET files == FileNames(wo)
      names == SeqMap(LAMBDA e : e.n, wo.ents)
      ascii == \A n \in files : \A k \in 1..Len(n) : Ord(At(n, k)) # 0
      compressible == {e \in Files(wo) : e.size > 2000 /\ ~e.elf}
  IN Need(~ascii \/ names = CanonOrder(files, DirNames(wo)), "order")
     \cup Need(\A e \in Ents(wo) : e.dir => e.mode = 493 /\ e.fmt = 4, "directory-mode")
     \cup Need(\A e \in Files(wo) : e.fmt = 8, "file-type")
     \cup (IF st.sde >= 0 THEN Need(\A e \in Ents(wo) : e.date = ZipDate(st.sde), "time-stamp")
           ELSE Need(Cardinality({e.date : e \in Ents(wo)}) <= 1 /\ \A e \in Ents(wo) : e.date[1] >= 1980, "time-stamp"))
     \cup Need(\A e \in Files(wo) : e.ct = 8, "not-deflated")
     \cup Need(IF st.zlevel = 0 THEN \A e \in Files(wo) : e.csize >= e.size
               ELSE \A e \in compressible : e.csize < e.size, "compression")

\* C19: launchers
ShimOk(s, path) == s.t = "python" /\ s.target = path
C19Wheel(pl, st, wi, wo) ==
  LET must == {n \in Users(pl) : IsScript(n)}
      may == Moved(pl)
      stay == {n \in FileNames(wi) : IsScript(n)} \ may
      moved(n) == LET o == MovedScript(wi, n) IN
        IF ~IsElfEnt(wo, o) THEN {"not-moved:" \o n}
        ELSE Need(Entry(wo, o).mode = UnpackMode(Entry(wi, n)), "mode:" \o o)
             \cup (IF ~HasEntry(wo, n) THEN {"no-launcher:" \o n}
                   ELSE Need(~Entry(wo, n).elf, "launcher-is-elf:" \o n)
                        \cup Need(Entry(wo, n).mode = UnpackMode(Entry(wi, n)), "launcher-mode:" \o n)
                        \cup Need(\A k \in 1..Len(wo.shims) : wo.shims[k].n = n =>
                                     /\ wo.shims[k].ran = o /\ wo.shims[k].args /\ wo.shims[k].status, "launcher-run:" \o n))
  IN UNION {moved(n) : n \in must}
     \cup UNION {Need(HasEntry(wo, n) /\ Entry(wo, n).elf = Entry(wi, n).elf /\ ~HasEntry(wo, MovedScript(wi, n)), "moved:" \o n) : n \in stay}

\* C21: names of the copies
C21Wheel(pl, st, wi, wo) ==
  LET inDest == {n \in FileNames(wo) : Dirname(n) = pl.dest} \ FileNames(wi)
      want == {GraftPath(pl, r) : r \in pl.grafts}
      one(r) == LET g == GraftPath(pl, r) s == pl.A.fs[r] IN
        IF ~IsElfEnt(wo, g) THEN {"missing:" \o pl.gname[r]}
        ELSE LET e == Entry(wo, g).e IN
             Need(e.soname = pl.gname[r] \/ HasEntry(wi, g), "soname:" \o pl.gname[r])
             \cup Need(SameElfBut([s.e EXCEPT !.soname = e.soname], e), "contents:" \o pl.gname[r])
             \cup Need(\E q \in pl.grafts : GraftPath(pl, q) = g /\ Entry(wo, g).mode = OrBits(pl.A.fs[q].mode, 128), "mode:" \o pl.gname[r])
  IN Need(inDest \subseteq want, "unexpected-copy") \cup UNION {one(r) : r \in pl.grafts}

\* C12: excluded libraries
C12Wheel(pl, st, wi, wo) ==
  LET hit(n, tree) == {s \in ToSet(Entry(wi, n).e.needed) : s \notin ToSet(tree.needed)}
      member(n) ==
        LET o == OutPath(pl, wi, n) IN
        IF ~IsElfEnt(wo, o) THEN {}
        ELSE UNION {Need(s \in ToSet(Entry(wo, o).e.needed), "reference-changed:" \o s) : s \in hit(n, pl.A.trees[n])}
      stemOf(s) == LET i == First(s, ".") IN IF i = 0 THEN s ELSE Take(s, i - 1)
      copied == {g \in {m \in FileNames(wo) : Dirname(m) = pl.dest} \ FileNames(wi) :
                   ~\E r \in pl.grafts : GraftPath(pl, r) = g}
  IN UNION {member(n) : n \in pl.A.used} \cup Need(copied = {}, "vendored")

\* C02 on the result: everything in the wheel honours the granted platform
C02Wheel(pl, st, wi, wo) ==
  LET reqs == UNION {VerReqs(Entry(wo, n).e) : n \in {m \in FileNames(wo) : IsElfEnt(wo, m) /\
                       (m \in {OutPath(pl, wi, x) : x \in pl.A.used} \cup {GraftPath(pl, r) : r \in pl.grafts})}}
      claimed == {i \in 1..Len(pl.A.pols) : ({pl.A.pols[i].name} \cup ToSet(pl.A.pols[i].aliases)) \cap
                    (WheelPlats(wo.fname) \ WheelPlats(wi.fname)) # {}}
  IN Need(~st.update_tags \/ \A i \in claimed : SymOk(pl.A.pols[i], reqs), "unsound-symbols")
     \cup Need(~st.update_tags \/ claimed \subseteq {pl.ri, pl.ai}, "claims")
     \cup Need(~st.update_tags \/ pl.ai \in claimed
               \/ {pl.A.pols[pl.ai].name} \subseteq WheelPlats(wi.fname), "not-highest")

\* C24: bill of materials
C24Wheel(tr, pl, st, wi, wo) ==
  LET pk == tr.pkgs      \* sequence of [p, name, version, purl]
      known == {r \in pl.grafts : \E i \in 1..Len(pk) : pk[i].p = r}
      pkg(r) == pk[CHOOSE i \in 1..Len(pk) : pk[i].p = r]
      b == wo.bom
      comps == b.comps
  IN IF known = {} THEN Need(~wo.hassbom, "unexpected-sbom")
     ELSE IF ~wo.hassbom THEN {"no-sbom"}
     ELSE Need(b.wellformed, "malformed")
          \cup Need(Len(comps) = Cardinality(known) + 1, "component-count")
          \cup (IF Len(comps) = 0 THEN {} ELSE
               Need(comps[1].purl = b.wheelpurl /\ b.fname = wo.fname /\ comps[1].name = wi.name /\ b.main = comps[1].ref, "wheel-component"))
          \cup Need({<<comps[i].name, comps[i].version, comps[i].purl>> : i \in 2..Len(comps)}
                    = {<<pkg(r).name, pkg(r).version, pkg(r).purl>> : r \in known}, "components")
          \cup Need(\A r \in known : Cardinality({i \in 2..Len(comps) : comps[i].name = pkg(r).name /\ comps[i].version = pkg(r).version})
                    = Cardinality({q \in known : pkg(q).name = pkg(r).name /\ pkg(q).version = pkg(r).version}), "components-per-package")
          \cup Need(Cardinality({comps[i].ref : i \in 1..Len(comps)}) = Len(comps), "ref-not-unique")
          \cup Need(ToSet(b.deps) = {comps[i].ref : i \in 2..Len(comps)} /\ Len(b.deps) = Len(comps) - 1, "dependencies")
          \cup Need(\E i \in 1..Len(wo.record) : wo.record[i].n = SbomName(wo), "not-in-record")

=============================================================================

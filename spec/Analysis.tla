------------------------------ MODULE Analysis ------------------------------
(* What an audit of a wheel concludes: the platform policies in force, the
   external libraries of every ELF file per policy, and the verdict of every
   aspect.  A wheel is given by its facts wf (entries, RECORD); fs is the file
   system including the unpacked wheel below WDIR. *)
EXTENDS Loader, Policy

WDIR == "/@/tmp/W"
RDIR == "/@"

WheelFs(wf) == TLCEval([p \in {WDIR \o "/" \o wf.ents[i].n : i \in {j \in 1..Len(wf.ents) : ~wf.ents[j].dir}} |->
                  LET i == CHOOSE j \in 1..Len(wf.ents) : WDIR \o "/" \o wf.ents[j].n = p
                      m == wf.ents[i]
                  IN IF m.elf THEN [t |-> "elf", e |-> m.e, sha |-> m.sha] ELSE [t |-> "file", sha |-> m.sha]])
SysFs(seq) == LET ok == {i \in 1..Len(seq) : seq[i].t \in {"elf", "link", "file"}}
              IN TLCEval([p \in {seq[i].p : i \in ok} |-> seq[CHOOSE i \in ok : seq[i].p = p]])

Entry(wf, n) == wf.ents[CHOOSE i \in 1..Len(wf.ents) : wf.ents[i].n = n]
HasEntry(wf, n) == \E i \in 1..Len(wf.ents) : wf.ents[i].n = n

\* ELF members named by RECORD, in its order
ElfMembers(wf) ==
  Dedupe(SelectSeq(SeqMap(LAMBDA r : r.n, wf.record),
                   LAMBDA n : ~EndsWith(n, ".py") /\ HasEntry(wf, n) /\ Entry(wf, n).elf))

\* ---------------------------------------------------------------- single files
KnownMach == {"i686", "x86_64", "ppc64le", "ppc64", "riscv64", "aarch64", "s390x", "armv7l", "loongarch64"}
\* baseline architecture of an ELF file, "" when unrecognised
ElfArch(e) == IF e.mach \in KnownMach /\ (e.mach = "armv7l" => e.abi = "ok") THEN e.mach ELSE ""

\* bit tests on the x86 ISA mask (values below 2^12)
Bit(n, b) == (n \div b) % 2 = 1
\* extended architecture required, "" for baseline, "?" for unknown bits
IsaOf(e) ==
  IF e.mach # "x86_64" \/ e.isa < 0 THEN ""
  ELSE IF Bit(e.isa, 8) THEN "x86_64_v4"
  ELSE IF Bit(e.isa, 4) THEN "x86_64_v3"
  ELSE IF Bit(e.isa, 2) THEN "x86_64_v2"
  ELSE IF e.isa - (e.isa % 2) # 0 THEN "?" ELSE ""

\* libc of a single file: "", a libc, or "conflict"
MuslName(s) == StartsWith(s, "libc.musl-") \/ StartsWith(s, "ld-musl-")
GlibcName(s) == s = "libc.so.6" \/ StartsWith(s, "ld-linux-") \/ StartsWith(s, "ld64.so.")
Stem(n) == LET i == Last0(n, ".") IN IF i <= 1 THEN n ELSE Take(n, i - 1)
NameLibc(n) ==
  IF EndsWith(n, "-arm-linux-musleabihf.so") \/ EndsWith(n, "-linux-musl.so") THEN "musl"
  ELSE IF EndsWith(n, "-arm-linux-gnueabihf.so") \/ EndsWith(n, "-linux-gnu.so")
  THEN LET parts == Split(Last(Split(Stem(n), ".")), "-")
           v == IF Len(parts) > 1 THEN parts[2] ELSE ""
       IN IF parts[1] = "cpython" /\ Len(v) >= 3 /\ At(v, 1) = "3" /\ At(v, 2) \in Digits /\ At(v, 3) \in Digits
             /\ ToNat(SubSeq(v, 2, 3)) >= 11
          THEN "glibc" ELSE ""
  ELSE ""
\* names: the DT_NEEDED entries left after exclusion play no role here
ElfLibc(e, fname) ==
  LET i == IF e.interp = "" THEN "" ELSE IF StartsWith(Basename(e.interp), "ld-musl-") THEN "musl" ELSE "glibc"
      m == \E k \in 1..Len(e.needed) : MuslName(e.needed[k])
      g == \E k \in 1..Len(e.needed) : ~MuslName(e.needed[k]) /\ GlibcName(e.needed[k])
      s == (IF i = "" THEN {} ELSE {i}) \cup (IF m THEN {"musl"} ELSE {}) \cup (IF g THEN {"glibc"} ELSE {})
  IN IF Cardinality(s) > 1 THEN "conflict"
     ELSE IF s # {} THEN CHOOSE x \in s : TRUE
     ELSE NameLibc(fname)

\* python extension modules: 0 none, 2 or 3
PyExt(e, fname) ==
  LET mod == Split(fname, ".")[1]
      hit == SelectSeq(e.syms, LAMBDA s : s.d /\ s.t = "FUNC" /\
                 s.n \in {"init" \o mod, "PyInit_" \o mod, "_cffi_pypyinit_" \o mod})
  IN IF hit = <<>> THEN 0 ELSE IF hit[1].n = "PyInit_" \o mod THEN 3 ELSE 2

Ucs2(e) == \E i \in 1..Len(e.syms) : ~e.syms[i].d /\ e.syms[i].t = "FUNC" /\ HasSub(e.syms[i].n, "PyUnicodeUCS2_")
Pyfpe(e) == \E i \in 1..Len(e.syms) : ~e.syms[i].d /\ e.syms[i].t \in {"FUNC", "NOTYPE"}
                  /\ e.syms[i].n \in {"PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"}
UndefStrong(e) == {e.syms[i].n : i \in {j \in 1..Len(e.syms) : ~e.syms[j].d /\ e.syms[j].b # "WEAK"}}

\* required symbol versions: set of <<library, version>>
VerReqs(e) == UNION {{<<e.vn[i].l, e.vn[i].v[k]>> : k \in 1..Len(e.vn[i].v)} :
                     i \in {j \in 1..Len(e.vn) : ~(StartsWith(e.vn[j].l, "ld-linux") \/ e.vn[j].l \in {"ld64.so.1", "ld64.so.2"})}}

\* ---------------------------------------------------------------- file names of wheels
NameParts(fname) == Split(Take(fname, Len(fname) - 4), "-")
WheelPlats(fname) == ToSet(Split(Last(NameParts(fname)), "."))
ArchsOfPlat(p) == {Baseline(ArchNames[i]) : i \in {j \in 1..Len(ArchNames) : EndsWith(p, "_" \o ArchNames[j])}}
\* architecture determined by the name: "" when there is none (several, unknown, "any")
NameArch(fname) ==
  LET ps == WheelPlats(fname)
      as == UNION {ArchsOfPlat(p) : p \in ps}
  IN IF Cardinality(as) = 1 /\ (\A p \in ps : ArchsOfPlat(p) # {}) THEN CHOOSE a \in as : TRUE ELSE ""
NamePure(fname) == WheelPlats(fname) = {"any"}
LibcOfPlat(p) == {l \in Libcs : StartsWith(p, TagPrefix[l])}
NameLibcs(fname) == UNION {LibcOfPlat(p) : p \in WheelPlats(fname)}
NameLibcTag(fname) == IF Cardinality(NameLibcs(fname)) = 1 THEN CHOOSE l \in NameLibcs(fname) : TRUE ELSE ""

\* ---------------------------------------------------------------- selecting policies
AndroidLevel(tag) ==   \* -1 if not android_<n>...
  IF ~StartsWith(tag, "android_") THEN -1
  ELSE LET r == Drop(tag, 8)
           n == DigitRun(r)
       IN IF n = 0 THEN -1 ELSE ToNat(Take(r, n))

\* h: [libc, musl] facts about the build machine; result: sequence of policies,
\* <<>> when the file name is not acceptable for an Android wheel
PoliciesFor(libc, arch, fname, h) ==
  LET tab == PolTable(libc, arch) IN
  CASE libc = "glibc" -> tab
    [] libc = "musl" ->
         IF h.musl = "" THEN SubSeq(tab, 1, Min({2, Len(tab)}))
         ELSE SelectSeq(tab, LAMBDA p : p.base \in {"linux", h.musl})
    [] libc = "android" ->
         LET ps == WheelPlats(fname)
             plat == CHOOSE p \in ps : TRUE
             lvl == AndroidLevel(plat)
             ok == {i \in 2..Len(tab) : AndroidLevel(tab[i].name) <= lvl}
             best == CHOOSE i \in ok : \A j \in ok : AndroidLevel(tab[j].name) <= AndroidLevel(tab[i].name)
         IN IF Cardinality(ps) # 1 \/ lvl < 0 \/ ok = {} THEN <<>>
            ELSE <<tab[1], [tab[best] EXCEPT !.name = plat, !.base = plat]>>

\* index of the policy with that name or alias (0: none)
PolIndex(pols, name) ==
  LET s == {i \in 1..Len(pols) : pols[i].name = name \/ name \in ToSet(pols[i].aliases)}
  IN IF s = {} THEN 0 ELSE Min(s)

\* most compatible policy that has all the required versions
Prefix(v) == LET i == First(v, "_") IN IF i = 0 THEN v ELSE Take(v, i - 1)
SymOk(p, reqs) == \A r \in reqs : Prefix(r[2]) \in DOMAIN p.sym => r[2] \in p.sym[Prefix(r[2])]
SymPolicy(pols, reqs) == Max({i \in 1..Len(pols) : SymOk(pols[i], reqs)})

\* ---------------------------------------------------------------- external references
\* sonames of the tree that have to come with the wheel under policy p
FilterLibs(names, wl, libc) ==
  {n \in names : ~IsLoaderName(n) /\ ~(libc = "android" /\ IsLibpython(n)) /\ n \notin wl}
RECURSIVE ReqClosure(_, _, _, _)
ReqClosure(tree, todo, done, f) ==
  IF todo = {} THEN done
  ELSE LET nxt == UNION {FilterLibs(ToSet(tree.libs[l].needed), f.wl, f.libc) : l \in todo}
           d2 == done \cup todo
       IN ReqClosure(tree, nxt \ d2, d2, f)
\* soname -> real path ("" unresolved), libraries inside the wheel left out
ExtRefs(tree, p, libc) ==
  LET req == ReqClosure(tree, FilterLibs(ToSet(tree.needed), p.wl, libc), {}, [wl |-> p.wl, libc |-> libc])
      ext == {l \in req : ~Within(tree.libs[l].real, WDIR)}
  IN [l \in ext |-> tree.libs[l].real]
\* black-listed symbols used: set of <<library, symbol>>
BlackRefs(e, tree, p) ==
  UNION {{<<l, s>> : s \in p.bl[l] \cap UndefStrong(e)} : l \in DOMAIN p.bl \cap ToSet(tree.needed)}

\* ---------------------------------------------------------------- the audit
\* Fold over the ELF members determining architecture and libc.
\* st: [arch, libc, used (seq of members), alien (some other arch seen), ext (an extension is used), err]
\* one more file is read
ClassifyStep(e, n, st) ==
  LET a == ElfArch(e)
      l == ElfLibc(e, Basename(n))
      inpure == "purelib" \in ToSet(Split(Dirname(n), "/"))
  IN IF inpure THEN [st EXCEPT !.pure = TRUE]
     ELSE IF st.pure THEN st
     ELSE IF l = "conflict" THEN [st EXCEPT !.err = "libc"]
     ELSE IF a = "" \/ (st.arch # "" /\ a # Baseline(st.arch)) THEN [st EXCEPT !.alien = TRUE]
     ELSE LET st1 == IF st.arch = "" THEN [st EXCEPT !.arch = a] ELSE st
          IN IF l # "" /\ st1.libc # "" /\ l # st1.libc THEN st1
             ELSE LET st2 == IF l # "" /\ st1.libc = "" THEN [st1 EXCEPT !.libc = l] ELSE st1
                  IN [st2 EXCEPT !.used = Append(@, n), !.ext = @ \/ PyExt(e, Basename(n)) # 0]
ClassifyStart(arch, libc) == [arch |-> arch, libc |-> libc, used |-> <<>>, alien |-> FALSE, pure |-> FALSE, ext |-> FALSE, err |-> ""]
\* everything is read: extension modules need a libc that some file tells
ClassifyEnd(st) == IF st.err = "" /\ ~st.pure /\ st.ext /\ st.libc = "" THEN [st EXCEPT !.err = "pylibc"] ELSE st
RECURSIVE Classify(_, _, _, _)
Classify(wf, ms, i, st) ==
  IF i > Len(ms) \/ st.err # "" THEN ClassifyEnd(st)
  ELSE Classify(wf, ms, i + 1, ClassifyStep(Entry(wf, ms[i]).e, ms[i], st))

\* Trees of ELF files that are not extensions are completed from a fully
\* resolved tree that contains them.
FullyResolved(t) == \A s \in DOMAIN t.libs : t.libs[s].real # ""
RECURSIVE Adopt(_, _, _, _)
\* libraries newly reachable through adopted sonames
Adopt(ref, todo, seen, acc) ==
  IF todo = {} THEN acc
  ELSE LET avail == todo \cap DOMAIN ref.libs
           acc2 == [s \in avail |-> ref.libs[s]] @@ acc
           nxt == UNION {ToSet(ref.libs[s].needed) : s \in avail}
           seen2 == seen \cup todo
       IN Adopt(ref, nxt \ seen2, seen2, acc2)
FixTree(t, ref) ==
  LET new == {s \in DOMAIN t.libs : t.libs[s].real = "" /\ s \in DOMAIN ref.libs}
      seen == DOMAIN t.libs
      more == Adopt(ref, UNION {ToSet(ref.libs[s].needed) : s \in new} \ seen, seen, EmptyFn)
  IN [needed |-> t.needed,
      libs |-> [s \in new |-> ref.libs[s]] @@ t.libs @@ more]
\* trees: member -> tree; order: candidate order of members
FixAll(trees, pys, nonpys) ==
  LET cand == SelectSeq(pys \o nonpys, LAMBDA n : FullyResolved(trees[n]))
      refFor(n) == {i \in 1..Len(cand) :
                      \E s \in DOMAIN trees[cand[i]].libs : trees[cand[i]].libs[s].real = WDIR \o "/" \o n}
  IN [n \in DOMAIN trees |->
        IF n \in ToSet(nonpys) /\ ~FullyResolved(trees[n]) /\ refFor(n) # {}
        THEN FixTree(trees[n], trees[cand[Min(refFor(n))]])
        ELSE trees[n]]

\* ELF files whose own dependencies have to be examined: extensions, and the
\* others unless they are reached as a dependency of an examined one.
Reached(trees, S) == UNION {{trees[n].libs[s].real : s \in DOMAIN trees[n].libs} : n \in S}
RECURSIVE AddRoots(_, _, _)
AddRoots(trees, rest, S) ==
  IF rest = <<>> THEN S
  ELSE IF (WDIR \o "/" \o Head(rest)) \in Reached(trees, S) THEN AddRoots(trees, Tail(rest), S)
       ELSE AddRoots(trees, Tail(rest), S \cup {Head(rest)})
Roots(trees, pys, nonpys) ==
  LET named == UNION {ToSet(trees[n].needed) : n \in DOMAIN trees}
      free == SelectSeq(nonpys, LAMBDA n : Basename(n) \notin named)
      rest == SelectSeq(nonpys, LAMBDA n : Basename(n) \in named)
  IN AddRoots(trees, rest, ToSet(pys) \cup ToSet(free))

\* a: [libc, arch, exclude, conf, env, noisa, graft, req, host]
\*   libc/arch "" = unknown; req "" = none, "auto", or base name of a platform
\* Result kind: "ok", "notplat", "purelib", "libc", "pylibc", "android"
Analyze(wf, fs0, a) ==
  LET fs == TLCEval(WheelFs(wf) @@ fs0)
      ms == ElfMembers(wf)
      cls == Classify(wf, ms, 1, ClassifyStart(a.arch, a.libc))
      arch == Baseline(cls.arch)
      libc == IF cls.libc = "" THEN a.host.libc ELSE cls.libc
      c == [fs |-> fs, wd |-> WDIR, env |-> a.env, conf |-> a.conf, interp |-> <<>>, exclude |-> a.exclude]
      pols == PoliciesFor(libc, arch, wf.fname, a.host)
      E(n) == Entry(wf, n).e
      pys == SelectSeq(cls.used, LAMBDA n : PyExt(E(n), Basename(n)) # 0)
      nonpys == SelectSeq(cls.used, LAMBDA n : PyExt(E(n), Basename(n)) = 0)
      used == ToSet(cls.used)
      trees0 == TLCEval([n \in used |-> Ldd(c, WDIR \o "/" \o n)])
      trees == TLCEval(FixAll(trees0, pys, nonpys))
      roots == Roots(trees, pys, nonpys)
      np == Len(pols)
      \* per file and policy
      refs == TLCEval([n \in used |-> [i \in 1..np |-> IF i = 1 THEN EmptyFn ELSE ExtRefs(trees[n], pols[i], libc)]])
      blk == TLCEval([n \in used |-> [i \in 1..np |-> IF i = 1 THEN {} ELSE BlackRefs(E(n), trees[n], pols[i])]])
      \* aggregated over the wheel: set of <<soname, real>>
      agg == TLCEval([i \in 1..np |-> UNION {{<<s, refs[n][i][s]>> : s \in DOMAIN refs[n][i]} : n \in roots}])
      names == TLCEval([i \in 1..np |-> {x[1] : x \in agg[i]}])
      blks == TLCEval([i \in 1..np |-> UNION {blk[n][i] : n \in used}])
      own == UNION {VerReqs(E(n)) : n \in used}
      \* every file some soname stands for in some tree
      files == TLCEval(UNION {UNION {{<<s, refs[n][i][s]>> : s \in {q \in DOMAIN refs[n][i] : refs[n][i][q] # ""}} : i \in 2..np} : n \in used})
      extreq(i) == UNION {VerReqs(fs[x[2]].e) : x \in {y \in files : y[1] \in names[i]}}
      reqs == TLCEval([i \in 1..np |-> own \cup (IF i = 1 THEN {} ELSE extreq(i))])
      symAt == TLCEval([i \in 1..np |-> IF i = 1 THEN 1 ELSE Min({i, SymPolicy(pols, reqs[i])})])
      sym == Max({symAt[i] : i \in 1..np})
      symFrom == IF np = 1 THEN 1 ELSE Min({i \in 2..np : symAt[i] = Max({symAt[j] : j \in 2..np})})
      ref == Max({i \in 1..np : names[i] = {}})
      black == Max({i \in 1..np : blks[i] = {}})
      \* instruction sets
      isaBad(e) == IsaOf(e) # ""
      ownBad == \E n \in used : isaBad(E(n))
      extBad == {x \in files : isaBad(fs[x[2]].e)}
      wlOf(s) == LET q == {i \in 2..np : s \in pols[i].wl} IN IF q = {} THEN 1 ELSE Max(q)
      mach == IF a.noisa THEN np
              ELSE IF ownBad THEN 1
              ELSE Min({np} \cup {wlOf(x[1]) : x \in extBad})
      ucs == IF \E n \in ToSet(pys) : PyExt(E(n), Basename(n)) = 2 /\ Ucs2(E(n)) THEN 1 ELSE np
      fpe == IF \E n \in ToSet(pys) : Pyfpe(E(n)) THEN 1 ELSE np
      cnt(i) == Cardinality(names[i])
      ri == PolIndex(pols, a.req \o "_" \o arch)
      graftMax == IF a.req \in {"", "auto"}
                  THEN (IF np = 1 THEN 0 ELSE Min({cnt(i) : i \in 2..np}))
                  ELSE IF ri = 0 THEN 0 ELSE cnt(ri)
      graft == Max({i \in 1..np : cnt(i) <= graftMax})
      all0 == Min({sym, ucs, fpe, black, mach})
      all1 == IF a.req = "" THEN all0 ELSE Min({all0, graft})
      overall == IF a.graft THEN all1 ELSE Min({all1, ref})
  IN CASE cls.err # "" -> [kind |-> cls.err]
       [] cls.err = "" /\ cls.pure -> [kind |-> "purelib"]
       [] cls.err = "" /\ ~cls.pure /\ cls.used = <<>> -> [kind |-> "notplat", arch |-> cls.arch, alien |-> cls.alien]
       [] cls.err = "" /\ ~cls.pure /\ cls.used # <<>> /\ np = 0 -> [kind |-> "android"]
       [] cls.err = "" /\ ~cls.pure /\ cls.used # <<>> /\ np = 1 /\ libc = "musl" -> [kind |-> "musl"]
       [] OTHER ->
          [kind |-> "ok", arch |-> arch, libc |-> libc, pols |-> pols, used |-> used, roots |-> roots,
           trees |-> trees, refs |-> refs, agg |-> agg, names |-> names, blks |-> blks, reqs |-> reqs,
           sym |-> sym, symFrom |-> symFrom, ref |-> ref, black |-> black, mach |-> mach, ucs |-> ucs,
           fpe |-> fpe, graft |-> graft, overall |-> overall, fs |-> fs]
=============================================================================

------------------------------- MODULE Repair -------------------------------
(* What a repair has to do with a wheel: refuse, or produce a wheel with the
   external libraries grafted.  A request st has the fields
     plat, exclude, only_plat, update_tags, strip, lib_sdir, patcher, noisa,
     pure, ldp ([set, v]), awld, ldlib                                      *)
EXTENDS Analysis

ReqArchOf(plat) == LET s == {i \in 1..Len(ArchNames) : EndsWith(plat, "_" \o ArchNames[i])}
                   IN IF s = {} THEN "" ELSE ArchNames[Min(s)]
PlatBase(plat) == LET r == ReqArchOf(plat) IN IF r = "" THEN plat ELSE Take(plat, Len(plat) - Len(r) - 1)
PlatLibc(base) == IF LibcOfPlat(base) = {} THEN "" ELSE CHOOSE l \in LibcOfPlat(base) : TRUE

JoinPaths(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o ":" \o b
\* directories searched: from the environment and from the configuration
EnvDirs(st, libc) == IF st.ldp.set \/ libc = "android" THEN SearchDirs(EmptyFn, st.awld, WDIR, WDIR)
                     ELSE SearchDirs(EmptyFn, JoinPaths(st.awld, st.ldlib), WDIR, WDIR)
ConfDirs(st) == IF st.ldp.set THEN SearchDirs(EmptyFn, st.ldp.v, WDIR, WDIR) ELSE <<>>

AnalysisArgs(st, wf, libc, arch, req, graft, host) ==
  [libc |-> libc, arch |-> arch, exclude |-> st.exclude, conf |-> ConfDirs(st), env |-> EnvDirs(st, libc),
   noisa |-> st.noisa, graft |-> graft, req |-> req, host |-> host]

ShowAnalysis(wf, fs0, st, host) ==
  Analyze(wf, fs0, AnalysisArgs(st, wf, NameLibcTag(wf.fname), NameArch(wf.fname), "", FALSE, host))

\* ---------------------------------------------------------------- naming
Sha8(sha) == Take(sha, 8)
GraftName(real, sha) ==
  LET b == Basename(real)
      i == First(b, ".")
      stem == IF i = 0 THEN b ELSE Take(b, i - 1)
      ext == IF i = 0 THEN "" ELSE Drop(b, i - 1)
      tag == "-" \o Sha8(sha)
  IN IF EndsWith(stem, tag) THEN b ELSE stem \o tag \o ext

DestDir(wf, st) == wf.name \o st.lib_sdir
IsScript(n) == LET c == Split(n, "/") IN Len(c) = 3 /\ EndsWith(c[1], ".data") /\ c[2] = "scripts"
MovedScript(wf, n) == wf.name \o ".scripts/" \o Basename(n)

\* ---------------------------------------------------------------- the plan
AbiNames(p) == <<p.name>> \o p.aliases
Refuse(why) == [kind |-> "refuse", why |-> why]
Plan(wf, fs0, st, host) ==
  LET base == PlatBase(st.plat)
      rarch == ReqArchOf(st.plat)
      narch == NameArch(wf.fname)
      nlibc == NameLibcTag(wf.fname)
      plibc == PlatLibc(base)
      libc == IF nlibc # "" THEN nlibc ELSE plibc
      arch == IF narch # "" THEN narch ELSE rarch
      A == TLCEval(Analyze(wf, fs0, AnalysisArgs(st, wf, libc, arch, base, TRUE, host)))
      pols == A.pols
      ri == IF base = "auto" THEN IF A.overall = 1 THEN 2 ELSE A.overall
            ELSE PolIndex(pols, base \o "_" \o A.arch)
      up == ~st.only_plat /\ ri < A.overall
      ai == IF up THEN A.overall ELSE ri
      abis == (IF up THEN AbiNames(pols[A.overall]) ELSE <<>>) \o AbiNames(pols[ri])
      ext == TLCEval([n \in A.used |-> A.refs[n][ai]])
      pyless(n) == {s \in DOMAIN ext[n] : ~IsLibpython(s)}
      missing == {s \in UNION {pyless(n) : n \in A.used} : \E n \in A.used : s \in DOMAIN ext[n] /\ ext[n][s] = ""}
      grafts == UNION {{ext[n][s] : s \in pyless(n)} : n \in A.used}
      touched == {n \in A.used : DOMAIN ext[n] # {}}
      noRpath == A.libc = "android" /\ AndroidLevel(pols[2].name) < 24
  IN CASE rarch # "" /\ narch # "" /\ rarch # narch -> Refuse("arch")
       [] plibc # "" /\ nlibc # "" /\ plibc # nlibc -> Refuse("libc")
       [] OTHER ->
          IF A.kind = "notplat"
          THEN IF st.pure /\ NamePure(wf.fname) THEN [kind |-> "copy"] ELSE Refuse("notplat")
          ELSE IF A.kind # "ok" THEN Refuse(A.kind)
          ELSE IF ri = 0 THEN Refuse("plat")
          ELSE IF ri > A.sym THEN Refuse("sym")
          ELSE IF ri > A.ucs THEN Refuse("ucs")
          ELSE IF ri > A.fpe THEN Refuse("fpe")
          ELSE IF ri > A.black THEN Refuse("black")
          ELSE IF ri > A.mach THEN Refuse("isa")
          ELSE IF missing # {} THEN Refuse("missing")
          ELSE IF noRpath /\ touched # {} THEN Refuse("api")
          ELSE IF st.patcher = "none" /\ touched # {} THEN Refuse("patcher")
          ELSE [kind |-> "ok", A |-> A, ri |-> ri, ai |-> ai, abis |-> abis, ext |-> ext, grafts |-> grafts,
                gname |-> [r \in grafts |-> GraftName(r, A.fs[r].sha)],
                pol |-> pols[ai], touched |-> touched,
                dest |-> DestDir(wf, st)]

\* sonames of a touched member that lead to grafted libraries
Grafting(pl, n) == {s \in DOMAIN pl.ext[n] : ~IsLibpython(s)}
\* members that need grafted libraries / that only lose a libpython
Users(pl) == {n \in pl.touched : Grafting(pl, n) # {}}
Moved(pl) == {n \in pl.touched : IsScript(n)}
OutPath(pl, wf, n) == IF n \in Moved(pl) THEN MovedScript(wf, n) ELSE n

\* DT_NEEDED of a member afterwards
MapNeeded(pl, wf, n) ==
  LET x == pl.ext[n]
      nd == Entry(wf, n).e.needed
  IN SeqMap(LAMBDA s : IF s \in DOMAIN x THEN pl.gname[x[s]] ELSE s,
            SelectSeq(nd, LAMBDA s : ~(s \in DOMAIN x /\ IsLibpython(s))))
\* possible names afterwards of a dependency s of the grafted library real
\* (the trees it occurs in may resolve s differently)
\* members that use the copy made of real (one copy stands for all files of its name and contents)
GraftUsers(pl, real) == {n \in pl.touched : \E s \in DOMAIN pl.ext[n] :
                           pl.ext[n][s] \in pl.grafts /\ pl.gname[pl.ext[n][s]] = pl.gname[real]}
GraftMap(pl, real, s) ==
  {IF s \in DOMAIN pl.ext[n] THEN (IF IsLibpython(s) THEN "" ELSE pl.gname[pl.ext[n][s]]) ELSE s : n \in GraftUsers(pl, real)}
RECURSIVE NeededOk(_, _, _, _)
\* out is a possible result of mapping the sequence nd
NeededOk(pl, real, nd, out) ==
  IF nd = <<>> THEN out = <<>>
  ELSE \/ "" \in GraftMap(pl, real, Head(nd)) /\ NeededOk(pl, real, Tail(nd), out)
       \/ /\ out # <<>>
          /\ Head(out) # ""
          /\ Head(out) \in GraftMap(pl, real, Head(nd))
          /\ NeededOk(pl, real, Tail(nd), Tail(out))

\* ---------------------------------------------------------------- search paths
Tokens(host) == <<<<"LIB", "lib64">>, <<"PLATFORM", host.machine>>>>
RECURSIVE SubTokens(_, _)
SubTokens(s, toks) == IF toks = <<>> THEN s
  ELSE LET t == Head(toks)[1] v == Head(toks)[2]
       IN SubTokens(Replace(Replace(s, "$" \o t, v), "${" \o t \o "}", v), Tail(toks))
InsideWheel(entry, file, host) ==     \* file: absolute path of the object
  LET p == SubTokens(ExpandOrigin(entry, Dirname(file)), Tokens(host))
  IN StartsWith(p, "/") /\ Within(NormPath(p), WDIR)
EffRpath(e) == IF e.runpath # "" THEN e.runpath ELSE e.rpath
NewRpath(pl, wf, n, host) ==
  LET o == OutPath(pl, wf, n)
      file == WDIR \o "/" \o o
      old == EffRpath(Entry(wf, n).e)
      kept == SelectSeq(Split(old, ":"), LAMBDA d : InsideWheel(d, file, host))
      rel == RelPath(pl.dest, Dirname(o))
  IN Join(Dedupe(Append(kept, IF rel = "." THEN "$ORIGIN" ELSE "$ORIGIN/" \o rel)), ":")

\* ---------------------------------------------------------------- tags
SplitTag(t) == LET q == Split(t, "-") IN <<q[1], IF Len(q) > 1 THEN q[2] ELSE "">>
GenericLinux(arch) == "linux_" \o arch
OutPlats(pl, wf) ==
  LET old == WheelPlats(wf.fname) \ {GenericLinux(pl.A.arch)}
      all == old \cup ToSet(pl.abis)
  IN IF Cardinality(all) > 1 THEN all \ {"any"} ELSE all
PyAbis(wf) == {SplitTag(wf.wmeta.tags[i]) : i \in 1..Len(wf.wmeta.tags)}
StopsPure(pl, wf) == "any" \in WheelPlats(wf.fname)
OutTags(pl, wf) ==
  LET gone == {GenericLinux(pl.A.arch)} \cup (IF StopsPure(pl, wf) THEN {"any"} ELSE {})
      keep == ToSet(wf.wmeta.tags) \ {pa[1] \o "-" \o pa[2] \o "-" \o g : pa \in PyAbis(wf), g \in gone}
  IN keep \cup {pa[1] \o "-" \o pa[2] \o "-" \o p : pa \in PyAbis(wf), p \in ToSet(pl.abis)}
\* expected output file name, given that platform tags are sorted
SortedPlats(fname) == LET q == Split(Last(NameParts(fname)), ".") IN q
NameStem(fname) == Join(Front(NameParts(fname)), "-")
OutName(pl, st, wi) == IF st.update_tags THEN NameStem(wi.fname) \o "-" \o Join(SortedStrs(OutPlats(pl, wi)), ".") \o ".whl" ELSE wi.fname
=============================================================================

------------------------------- MODULE Loader -------------------------------
(* Files and the resolution of ELF dependencies.

   A file system is a function from absolute normalised paths to nodes
     [t |-> "elf", e |-> <ELF facts>, sha |-> ..]  [t |-> "link", to |-> ..]
     [t |-> "file", ..]
   Two resolvers are specified:
     - Ldd:  the static resolution that an audit performs (search order of
             ld.so applied to a main object, one file per soname per tree)
     - RtLookup: what the dynamic loader does for one dependency of one
             object in a chain of loading objects (used to judge results). *)
EXTENDS Str

EmptyFn == [x \in {} |-> ""]

\* ---------------------------------------------------------------- names
DigitRun(s) == LET nd == {i \in 1..Len(s) : At(s, i) \notin Digits} IN IF nd = {} THEN Len(s) ELSE Min(nd) - 1
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
RECURSIVE DropLower(_)
DropLower(s) == IF s # "" /\ At(s, 1) \in Lower THEN DropLower(Drop(s, 1)) ELSE s
RECURSIVE AllDotNum(_)
AllDotNum(s) == s = "" \/ (At(s, 1) = "." /\ LET n == DigitRun(Drop(s, 1)) IN n > 0 /\ AllDotNum(Drop(s, n + 1)))
\* libpython<maj>[.<min>[flags]].so[.<n>]*
IsLibpython(s) ==
  /\ StartsWith(s, "libpython")
  /\ LET a == Drop(s, 9)
         n1 == DigitRun(a)
         b == Drop(a, n1)
         tail(x) == StartsWith(x, ".so") /\ AllDotNum(Drop(x, 3))
     IN /\ n1 > 0
        /\ \/ tail(b)
           \/ /\ StartsWith(b, ".")
              /\ LET n2 == DigitRun(Drop(b, 1))
                 IN n2 > 0 /\ tail(DropLower(Drop(b, n2 + 1)))

\* the dynamic loader itself, by name
IsLoaderName(s) == HasSub(s, "ld-linux") \/ s \in {"ld64.so.1", "ld64.so.2"}

\* ---------------------------------------------------------------- files
\* the file a path denotes: every symbolic link on the way is followed, and
\* ".." is the parent of what has been reached so far
RECURSIVE CanonGo(_, _, _, _)
CanonGo(fs, acc, comps, fuel) ==
  IF comps = <<>> THEN IF acc = "" THEN "/" ELSE acc
  ELSE LET x == Head(comps) q == acc \o "/" \o x
       IN IF x = ".." THEN CanonGo(fs, Take(acc, IF acc = "" THEN 0 ELSE Last0(acc, "/") - 1), Tail(comps), fuel)
          ELSE IF fuel > 0 /\ (IF q \in DOMAIN fs THEN fs[q].t = "link" ELSE FALSE)
               THEN CanonGo(fs, IF StartsWith(fs[q].to, "/") THEN "" ELSE acc, Comps(fs[q].to) \o Tail(comps), fuel - 1)
               ELSE CanonGo(fs, q, Tail(comps), fuel)
Target(fs, p) == CanonGo(fs, "", Comps(p), 40)
IsElf(fs, p) == p \in DOMAIN fs /\ fs[p].t = "elf" /\ fs[p].e.bad = ""

GnuAbis == {0, 3}
\* can an object of kind a load an object of kind b?
Compatible(a, b) ==
  /\ a.mach = b.mach
  /\ (a.osabi = b.osabi \/ (a.osabi \in GnuAbis /\ b.osabi \in GnuAbis))

ExpandOrigin(s, dir) == Replace(Replace(s, "${ORIGIN}", dir), "$ORIGIN", dir)

\* directories named by a search path string of the object at path; wd is the
\* working directory (empty entries)
SearchDirs(fs, str, path, wd) ==
  IF str = "" THEN <<>>
  ELSE Dedupe(SeqMap(LAMBDA d : IF d = "" THEN wd
                                ELSE IF HasSub(d, "$ORIGIN") \/ HasSub(d, "${ORIGIN}")
                                     THEN Target(fs, ExpandOrigin(d, Dirname(path)))
                                     ELSE Target(fs, "/" \o d),
                     Split(str, ":")))

\* first compatible file named lib in the directories, "" if none
FindLib(fs, obj, lib, dirs) ==
  LET hit == {i \in 1..Len(dirs) :
                LET t == Target(fs, PathJoin(dirs[i], lib))
                IN IsElf(fs, t) /\ Compatible(obj, fs[t].e)}
  IN IF hit = {} THEN "" ELSE Target(fs, PathJoin(dirs[Min(hit)], lib))

\* ---------------------------------------------------------------- static resolution
\* c: [fs, wd, env, conf, interp, exclude]  (interp filled in by Ldd)
Excluded(c, s) == \E i \in 1..Len(c.exclude) : FnMatch(s, c.exclude[i])

Unresolved == [real |-> "", needed |-> <<>>]

RECURSIVE LddObj(_, _, _, _), LddNeeded(_, _, _, _, _, _, _)

ObjDirs(c, path) ==
  LET e == c.fs[path].e
      run == SearchDirs(c.fs, e.runpath, path, c.wd)
      rp == IF e.runpath # "" THEN <<>> ELSE SearchDirs(c.fs, e.rpath, path, c.wd)
  IN [rpath |-> rp, runpath |-> run]

\* m: the main object's [rpath, runpath]; all: sonames already in the tree
LddObj(c, m, path, all) ==
  LET o == ObjDirs(c, path)
      dirs == m.rpath \o o.rpath \o o.runpath \o c.env \o m.runpath \o c.conf \o c.interp
      e == c.fs[path].e
      r == LddNeeded(c, m, e, dirs, 1, all, {})
  IN [all |-> r.all,
      needed |-> SelectSeq(e.needed, LAMBDA s : s \notin r.excl)]

LddNeeded(c, m, e, dirs, i, all, excl) ==
  IF i > Len(e.needed) THEN [all |-> all, excl |-> excl]
  ELSE LET s == e.needed[i] IN
    IF s \in DOMAIN all \/ s \in excl THEN LddNeeded(c, m, e, dirs, i + 1, all, excl)
    ELSE IF Excluded(c, s) THEN LddNeeded(c, m, e, dirs, i + 1, all, excl \cup {s})
    ELSE IF IsLibpython(s) THEN LddNeeded(c, m, e, dirs, i + 1, (s :> Unresolved) @@ all, excl)
    ELSE LET p == FindLib(c.fs, e, s, dirs) IN
      IF p = "" THEN LddNeeded(c, m, e, dirs, i + 1, (s :> Unresolved) @@ all, excl)
      ELSE IF Excluded(c, p) THEN LddNeeded(c, m, e, dirs, i + 1, all, excl \cup {s})
      ELSE LET sub == LddObj(c, m, p, (s :> [real |-> p, needed |-> <<>>]) @@ all)
               all2 == [sub.all EXCEPT ![s] = [real |-> p, needed |-> sub.needed]]
           IN LddNeeded(c, m, e, dirs, i + 1, all2, excl)

\* tree of the main object at path: [needed, libs (soname -> [real, needed])]
Ldd(c, path) ==
  LET e == c.fs[path].e
      isoname == Basename(e.interp)
      ipath == NormPath(e.interp)
      c2 == IF e.interp = "" THEN c
            ELSE [c EXCEPT !.interp = <<NormPath(Dirname(e.interp)), NormPath("/usr" \o Dirname(e.interp))>>]
      all0 == IF e.interp = "" THEN EmptyFn
              ELSE isoname :> [real |-> IF IsElf(c.fs, Target(c.fs, ipath)) THEN Target(c.fs, ipath) ELSE "", needed |-> <<>>]
      m == ObjDirs(c, path)
      r == LddObj(c2, m, path, all0)
  IN [needed |-> r.needed, libs |-> r.all]

\* ---------------------------------------------------------------- run-time loading
\* Directories searched by the loader for a dependency of the last object of a
\* chain (chain[1] is the program/extension that was opened): RPATHs from the
\* object up its loaders unless it has a RUNPATH, then its RUNPATH.
RECURSIVE ChainRpaths(_, _)
ChainRpaths(fs, chain) ==
  IF chain = <<>> THEN <<>>
  ELSE LET p == Last(chain)
           e == fs[p].e
       IN (IF e.runpath # "" THEN <<>> ELSE SearchDirs(fs, e.rpath, p, "/nowhere"))
          \o ChainRpaths(fs, Front(chain))
RtDirs(fs, chain) ==
  LET p == Last(chain)
      e == fs[p].e
  IN IF e.runpath # "" THEN SearchDirs(fs, e.runpath, p, "/nowhere")
     ELSE ChainRpaths(fs, chain)
RtLookup(fs, chain, lib) == FindLib(fs, fs[Last(chain)].e, lib, RtDirs(fs, chain))
=============================================================================

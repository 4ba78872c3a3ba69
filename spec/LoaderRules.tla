---------------------------- MODULE LoaderRules ----------------------------
(* Configuration of the dynamic loader, and judging recorded resolutions.   *)
EXTENDS Analysis

\* ------------------------------------------------ ld.so.conf
\* conf: sequence of [p |-> path, lines |-> sequence of lines]
Blank(c) == c = " " \/ c = "\t"
RECURSIVE Trim(_)
Trim(l) == IF l = "" THEN "" ELSE IF Blank(At(l, 1)) THEN Trim(Drop(l, 1))
           ELSE IF Blank(At(l, Len(l))) THEN Trim(Take(l, Len(l) - 1)) ELSE l
Bare(l) == Trim(Split(l, "#")[1])
Words(l) == SelectSeq(Split(Replace(l, "\t", " "), " "), LAMBDA w : w # "")
IsInclude(l) == Len(Words(l)) > 1 /\ Words(l)[1] = "include"
ConfPaths(conf) == {conf[i].p : i \in 1..Len(conf)}
\* files of that name pattern, in sorted order
Matching(conf, pat) ==
  SortedStrs({p \in ConfPaths(conf) : /\ Dirname(p) = Dirname(pat) /\ FnMatch(Basename(p), Basename(pat))
                                      /\ (At(Basename(p), 1) = "." => At(Basename(pat), 1) = ".")})
RECURSIVE ConfDirsOf(_, _, _, _), ConfFrom(_, _, _, _, _)
ConfDirsOf(conf, root, p, fuel) ==
  IF p \notin ConfPaths(conf) \/ fuel = 0 THEN <<>>
  ELSE ConfFrom(conf, root, p, (CHOOSE i \in 1..Len(conf) : conf[i].p = p), fuel)
ConfFrom(conf, root, p, i, fuel) ==
  FlattenSeq(SeqMap(LAMBDA l0 :
    LET l == Bare(l0) IN
    IF l = "" THEN <<>>
    ELSE IF IsInclude(l)
         THEN FlattenSeq(SeqMap(LAMBDA w :
                FlattenSeq(SeqMap(LAMBDA q : ConfDirsOf(conf, root, q, fuel - 1),
                                  Matching(conf, IF StartsWith(w, "/") THEN NormPath(root \o w) ELSE NormPath(Dirname(p) \o "/" \o w)))),
                Tail(Words(l))))
         ELSE <<NormPath(root \o l)>>,
    conf[i].lines))
\* musl: a list separated by colons and newlines; defaults if there is no file
MuslDirs(conf, root) ==
  IF conf = <<>> THEN <<root \o "/lib", root \o "/usr/local/lib", root \o "/usr/lib">>
  ELSE SelectSeq(SeqMap(LAMBDA d : IF Trim(d) = "" THEN "" ELSE NormPath(root \o Trim(d)),
                        FlattenSeq(SeqMap(LAMBDA l : Split(l, ":"), conf[1].lines))), LAMBDA d : d # "")
ConfOf(fs, s, root) ==
  CASE s.etc = "glibc" -> SeqMap(LAMBDA d : Target(fs, d), ConfDirsOf(s.conf, root, root \o "/etc/ld.so.conf", 5))
    [] s.etc = "musl" -> SeqMap(LAMBDA d : Target(fs, d), MuslDirs(s.conf, root))
    [] s.ldp.set -> SearchDirs(fs, s.ldp.v, "/", s.cwdir)
    [] OTHER -> <<>>
\* the search paths of the environment; LD_LIBRARY_PATH belongs to the default configuration
EnvOf(fs, s) ==
  LET j == IF s.etc # "" \/ s.ldp.set \/ s.ldlib = "" THEN s.awld
           ELSE IF s.awld = "" THEN s.ldlib ELSE s.awld \o ":" \o s.ldlib
  IN SearchDirs(fs, j, "/", s.cwdir)

\* ------------------------------------------------ verdict
\* the architecture and instruction set level of a file, as "arch/level"; bits
\* nobody knows stand for more than any known level
PlatOf(e) == IF ElfArch(e) = "" THEN "" ELSE ElfArch(e) \o "/" \o (IF IsaOf(e) = "?" THEN "x86_64_v4" ELSE IsaOf(e))
NeedL(c, t) == IF c THEN {} ELSE {t}
TreeVerdict(fs, s, t) ==
  LET path == Target(fs, t.p)
      c == [fs |-> fs, wd |-> s.cwdir, env |-> EnvOf(fs, s), conf |-> ConfOf(fs, s, "/@/sys/root"), interp |-> <<>>, exclude |-> s.exclude]
      e == fs[path].e
      want == TLCEval(Ldd(c, t.p))
      libc == ElfLibc(e, Basename(t.p))
      names == {t.libs[i].s : i \in 1..Len(t.libs)}
      rec(n) == t.libs[CHOOSE i \in 1..Len(t.libs) : t.libs[i].s = n]
  IN IF libc = "conflict" THEN NeedL(t.err # "", "accepted")
     ELSE IF t.err # "" THEN {"failed:" \o t.err}
     ELSE NeedL(t.needed = want.needed, "needed")
          \cup NeedL(t.libc = libc, "libc")
          \cup NeedL(Len(t.libs) = Cardinality(names) /\ \A i \in 1..Len(t.libs) : t.libs[i].key = t.libs[i].s, "not-once")
          \cup NeedL(t.plat \in {"?", PlatOf(e)}, "platform")
          \cup {"platform:" \o n : n \in {x \in names \cap DOMAIN want.libs :
                   rec(x).real # "" /\ Target(fs, rec(x).real) = want.libs[x].real /\ x # Basename(e.interp) /\ rec(x).plat \notin {"?", PlatOf(fs[want.libs[x].real].e)}}}
          \cup {"missing:" \o n : n \in DOMAIN want.libs \ names}
          \cup {"extra:" \o n : n \in names \ DOMAIN want.libs}
          \cup {"resolved:" \o n : n \in {x \in names \cap DOMAIN want.libs :
                   (IF rec(x).real = "" THEN "" ELSE Target(fs, rec(x).real)) # want.libs[x].real}}
          \cup {"path:" \o n : n \in {x \in names \cap DOMAIN want.libs :
                   rec(x).real # "" /\ Target(fs, rec(x).path) # Target(fs, rec(x).real)}}
          \cup {"needs-of:" \o n : n \in {x \in names \cap DOMAIN want.libs : rec(x).needed # want.libs[x].needed}}
          \cup NeedL((t.interp = "") = (e.interp = "") /\ (t.interp # "" => Target(fs, t.interp) = Target(fs, e.interp)), "interp")
LddVerdict(sys, s) == UNION {{s.trees[i].p \o ":" \o x : x \in TreeVerdict(sys, s, s.trees[i])} : i \in 1..Len(s.trees)}
=============================================================================

------------------------------ MODULE Archive ------------------------------
(* Canonical layout of a packed wheel: order of entries, directories, time
   stamps, permission bits. *)
EXTENDS Str

\* all directories (without trailing slash) implied by a set of file names
RECURSIVE Parents(_)
Parents(p) == LET d == Dirname(p) IN IF d \in {"", "/"} THEN {} ELSE {d} \cup Parents(d)
AllDirs(files, dirs) == dirs \cup UNION {Parents(p) : p \in files \cup dirs}

IsDistInfo(d) == EndsWith(d, ".dist-info") /\ Occ(d, "/") = {}
ChildFiles(files, d) == {p \in files : Dirname(p) = d}
ChildDirs(dirs, d) == {p \in dirs : Dirname(p) = d}

\* files of a directory, RECORD of the metadata directory last
OrderFiles(files, d) ==
  LET mine == ChildFiles(files, d)
      rec == {p \in mine : IsDistInfo(d) /\ Basename(p) = "RECORD"}
  IN SortedStrs(mine \ rec) \o SortedStrs(rec)
OrderDirs(dirs, d) ==
  LET mine == ChildDirs(dirs, d)
      di == {p \in mine : d = "" /\ IsDistInfo(p)}
  IN SortedStrs(mine \ di) \o SortedStrs(di)
RECURSIVE WalkDir(_, _, _), WalkSeq(_, _, _)
\* entries below d: its files, then each subdirectory (entry, contents)
WalkDir(files, dirs, d) == OrderFiles(files, d) \o WalkSeq(files, dirs, OrderDirs(dirs, d))
WalkSeq(files, dirs, q) == IF q = <<>> THEN <<>>
  ELSE <<Head(q) \o "/">> \o WalkDir(files, dirs, Head(q)) \o WalkSeq(files, dirs, Tail(q))
CanonOrder(files, dirs) == WalkDir(files, AllDirs(files, dirs), "")

\* ---------------------------------------------------------------- time stamps
\* civil date of a non-negative UNIX time below 2^31
DateOf(t) ==
  LET z == (t \div 86400) + 719468
      sec == t % 86400
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d, sec \div 3600, (sec \div 60) % 60, sec % 60>>
\* what an archive can hold: two-second steps, nothing before 1980
ZipDate(t) == LET c == DateOf(t) IN
  IF c[1] < 1980 THEN <<1980, 1, 1, 0, 0, 0>> ELSE [c EXCEPT ![6] = (@ \div 2) * 2]

\* ---------------------------------------------------------------- permissions
\* mode of an entry after unpacking (rw-r--r-- when the archive has no UNIX mode): owner may read and write
OrBits(m, b) == IF (m \div b) % 2 = 1 THEN m ELSE m + b
UnpackMode(e) == IF e.mode = 0 /\ e.fmt = 0 THEN 420 ELSE OrBits(OrBits(e.mode % 512, 256), 128)
=============================================================================

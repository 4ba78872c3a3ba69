------------------------------ MODULE MCRepair ------------------------------
(* Small wheels on small systems, repaired, reported, moved to a machine with
   none of the libraries, repaired again.  The result of a repair is the one
   constructed in Result.tla; the invariants say that it satisfies everything
   Clauses.tla demands of a repaired wheel, that the plan is a good one, and
   that repairing is idempotent.  Worlds are printed as cases for the real
   code.                                                                    *)
EXTENDS Result
CONSTANTS Places, Needs, Others, Paths, LibAs, LibBs, Vers, Plats, Excludes, Tags, Emit

\* four of the published policies
SmallTable(libc, arch) ==
  SelectSeq(Tables[libc][arch], LAMBDA p : p.base \in {"linux", "manylinux_2_5", "manylinux_2_17", "manylinux_2_28"})

VARIABLES w,      \* what the world is made of
          wheel,  \* the wheel as it is now
          sys,    \* libraries of the machine
          plan,   \* of the last repair
          prev,   \* the wheel before it
          phase
vars == <<w, wheel, sys, plan, prev, phase>>
Host == [libc |-> "glibc", musl |-> "", machine |-> "x86_64"]

LibA == "libA.so.1"
\* the second library is one that newer platforms guarantee, or not
LibB(x) == IF x.lb \in {"guaranteed"} THEN "libexpat.so.1" ELSE "libB.so.2"
D1 == "/@/sys/d1"
D2 == "/@/sys/d2"
NoElf == [bad |-> "not-elf"]
Elf(id, soname, needed, rpath, v, syms) ==
  [bad |-> "", id |-> id, mach |-> "x86_64", abi |-> "ok", osabi |-> 0, interp |-> "", soname |-> soname,
   needed |-> needed, rpath |-> rpath, runpath |-> "", isa |-> -1, syms |-> syms, symtab |-> <<"main">>, debug |-> TRUE, comment |-> "cc",
   vn |-> <<[l |-> "libc.so.6", v |-> <<v>>]>>]
C == <<"libc.so.6">>
PyInit == <<[n |-> "PyInit_m", d |-> TRUE, t |-> "FUNC", b |-> "GLOBAL"]>>
NeedSeq(x) == CASE x.n1 = "none" -> <<>> [] x.n1 = "a" -> <<LibA>> [] x.n1 = "b" -> <<LibB(x)>>
                [] x.n1 = "ab" -> <<LibA, LibB(x)>> [] x.n1 = "pya" -> <<"libpython3.12.so.1.0", LibA>>
PathStr(x) == CASE x.rp = "none" -> "" [] x.rp = "own" -> "$ORIGIN/libs" [] x.rp = "sys" -> D1 [] x.rp = "ownsys" -> D1 \o ":$ORIGIN/libs"
Ext1(x) == CASE x.place = "top" -> "m.abi3.so" [] x.place = "deep" -> "pkg/sub/m.abi3.so" [] x.place = "data" -> "foo-1.0.data/platlib/pkg/m.abi3.so"
E1(x) == Elf("ext1", "", (IF x.other = "own" THEN <<"libown.so">> ELSE <<>>) \o NeedSeq(x) \o C,
             PathStr(x), "GLIBC_2.2.5", PyInit)
File(n, elf, e) == [n |-> n, dir |-> FALSE, elf |-> elf, e |-> e, mode |-> 493, fmt |-> 8, date |-> <<2020, 1, 1, 0, 0, 0>>,
                    ct |-> 8, size |-> 1000, csize |-> 500, sha |-> "sha-" \o n, b64 |-> "b64-" \o n]
Members(x) ==
  <<File("pkg/__init__.py", FALSE, NoElf), File(Ext1(x), TRUE, E1(x))>>
  \o (CASE x.other = "none" -> <<>>
        [] x.other = "ext2" -> <<File("pkg/m.so", TRUE, Elf("ext2", "", <<LibA>> \o C, "", "GLIBC_2.2.5", PyInit))>>
        \* sees another libA
        [] x.other = "ext2d2" -> <<File("pkg/m.so", TRUE, Elf("ext2", "", <<LibA>> \o C, D2, "GLIBC_2.2.5", PyInit))>>
        \* a library of the wheel beside the extension
        [] x.other = "own" -> <<File(Dirname(Ext1(x)) \o (IF Dirname(Ext1(x)) = "" THEN "" ELSE "/") \o "libs/libown.so", TRUE,
                                     Elf("own", "libown.so", <<LibA>> \o C, "", "GLIBC_2.2.5", <<>>))>>
        [] x.other = "script" -> <<File("foo-1.0.data/scripts/run", TRUE, Elf("run", "", <<LibA>> \o C, D1, "GLIBC_2.2.5", <<>>))>>
        [] x.other = "cleanscript" -> <<File("foo-1.0.data/scripts/run", TRUE, Elf("run", "", C, D1, "GLIBC_2.2.5", <<>>))>>)
FName(x) == "foo-1.0-cp312-abi3-" \o (IF x.tag = "any" THEN "any" ELSE "linux_x86_64") \o ".whl"
TagSeq(x) == <<"cp312-abi3-" \o (IF x.tag = "any" THEN "any" ELSE "linux_x86_64")>>
InWheel(x, backwards) ==
  LET m0 == Members(x)
      m1 == IF backwards THEN SeqMap(LAMBDA i : m0[Len(m0) + 1 - i], [i \in 1..Len(m0) |-> i]) ELSE m0
      ms == m1 \o <<File("foo-1.0.dist-info/WHEEL", FALSE, NoElf), File("foo-1.0.dist-info/RECORD", FALSE, NoElf)>>
  IN [ok |-> TRUE, fname |-> FName(x), name |-> "foo", dist |-> <<"foo-1.0.dist-info">>, ents |-> ms,
      record |-> SeqMap(LAMBDA m : [n |-> m.n, h |-> IF m.n = "foo-1.0.dist-info/RECORD" THEN "" ELSE "sha256=" \o m.b64,
                                    s |-> IF m.n = "foo-1.0.dist-info/RECORD" THEN "" ELSE ToString(m.size)], ms),
      wmeta |-> [tags |-> TagSeq(x), purelib |-> "false", other |-> ""], hassbom |-> FALSE, shims |-> <<>>]
Lib(id, so, needed, v) == [t |-> "elf", sha |-> "0000000" \o id, mode |-> 420, e |-> Elf("lib" \o id, so, needed \o C, "", v, <<>>)]
Machine(x) ==
  (IF x.la = "absent" THEN EmptyFn
   ELSE (D1 \o "/" \o LibA :> Lib("a", LibA, CASE x.la = "needsb" -> <<LibB(x)>> [] x.la = "needspy" -> <<"libpython3.so">> [] OTHER -> <<>>, x.v)))
  @@ (D2 \o "/" \o LibA :> Lib("c", LibA, <<>>, "GLIBC_2.2.5"))
  @@ (D1 \o "/" \o LibB(x) :> Lib("b", LibB(x), IF x.lb = "needsa" THEN <<LibA>> ELSE <<>>, "GLIBC_2.2.5"))
Request(x) ==
  [plat |-> IF x.plat = "auto" THEN "auto" ELSE x.plat \o "_x86_64", exclude |-> IF x.ex = "none" THEN <<>> ELSE <<x.ex>>,
   only_plat |-> FALSE, update_tags |-> TRUE, strip |-> FALSE, lib_sdir |-> ".libs", patcher |-> "patchelf", noisa |-> FALSE,
   pure |-> FALSE, ldp |-> [set |-> TRUE, v |-> D1], awld |-> "", ldlib |-> "", sde |-> -1, zlevel |-> -1]

NoPlan == [kind |-> "none"]
Init == /\ w \in [place : Places, n1 : Needs, other : Others, rp : Paths, la : LibAs, lb : LibBs, v : Vers, plat : Plats, ex : Excludes, tag : Tags]
        /\ wheel = InWheel(w, FALSE) /\ sys = Machine(w) /\ plan = NoPlan /\ prev = <<>> /\ phase = "built"
DoRepair(next) ==
  LET pl == TLCEval(Plan(wheel, sys, Request(w), Host)) IN
  /\ plan' = pl
  /\ prev' = wheel
  /\ IF pl.kind = "ok"
     THEN wheel' = OutWheel(pl, Request(w), wheel, Host) /\ phase' = next
     ELSE wheel' = wheel /\ phase' = "refused"
  /\ UNCHANGED <<w, sys>>
Repair == phase = "built" /\ (Emit => PrintT(<<"CASE", ToJson(w)>>)) /\ DoRepair("repaired")
Again == phase = "repaired" /\ DoRepair("again")
\* to a machine that has none of the libraries (a library excluded by its path is then not known to be excluded)
Move == phase = "repaired" /\ sys' = EmptyFn /\ phase' = "moved" /\ UNCHANGED <<w, wheel, plan, prev>>
AgainThere == phase = "moved" /\ ~HasSub(w.ex, "/") /\ DoRepair("again-there")
Next == Repair \/ Again \/ Move \/ AgainThere
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ what must hold
st == Request(w)
\* the constructed result is one the clauses accept
ClauseFailures ==
  C01Wheel(plan, st, prev, wheel)
  \cup C02Wheel(plan, st, prev, wheel)
  \cup C05Wheel(wheel)
  \cup C06Wheel(plan, st, prev, wheel)
  \cup C09Wheel(plan, st, prev, wheel)
  \cup C12Wheel(plan, st, prev, wheel)
  \cup C14Wheel(plan, st, prev, wheel, Host)
  \cup C16Wheel([sde |-> -1, zlevel |-> 1], prev, [wheel EXCEPT !.ents = SeqMap(LAMBDA m : [m EXCEPT !.date = <<2020, 1, 1, 0, 0, 0>>], @)])
  \cup C19Wheel(plan, st, prev, wheel)
  \cup C21Wheel(plan, st, prev, wheel)
\* no copy that nothing needs; no two copies under one name
NoWaste ==
  LET needs == UNION {ToSet(Entry(wheel, n).e.needed) : n \in {m \in FileNames(wheel) : IsElfEnt(wheel, m)}} IN
  /\ \A r \in plan.grafts : plan.gname[r] \in needs
  /\ \A r, q \in plan.grafts : plan.gname[r] = plan.gname[q] => plan.A.fs[r].sha = plan.A.fs[q].sha
\* nothing of the system is left: every need is guaranteed, in the wheel, excluded or was never found
Complete ==
  \A n \in plan.A.used : \A s \in ToSet(Entry(wheel, OutPath(plan, prev, n)).e.needed) :
    Guaranteed(plan, s) \/ s \in {plan.gname[r] : r \in plan.grafts} \/ s = "libown.so" \/ w.ex # "none"
\* repaired again, here or elsewhere: the same
Idempotent ==
  /\ plan.kind = "ok"
  /\ plan.grafts = {}
  /\ plan.touched = {}
  /\ wheel.fname = prev.fname
  /\ wheel.wmeta = prev.wmeta
  /\ SeqMap(LAMBDA m : m.n, wheel.ents) = SeqMap(LAMBDA m : m.n, prev.ents)
  /\ \A n \in FileNames(wheel) : IsElfEnt(wheel, n) => Entry(wheel, n).sha = Entry(prev, n).sha
\* the report of the result names the granted platform or a better one
Reported(A) == A.kind = "ok" /\ (w.ex = "none" => /\ A.overall >= plan.ai
                                                 /\ \A i \in (A.overall + 1)..Len(A.pols) : A.names[i] = {} \/ i > plan.ai)
\* the order of the members does not matter
Unordered ==
  LET q == TLCEval(Plan(InWheel(w, TRUE), Machine(w), st, Host)) IN
  q.kind = plan.kind /\ (q.kind = "ok" => q.grafts = plan.grafts /\ q.gname = plan.gname /\ q.abis = plan.abis /\ q.touched = plan.touched)
\* a wheel good enough for a platform is good enough for the ones that guarantee more
Ladder ==
  \A p \in {"manylinux_2_17", "manylinux_2_28", "linux"} :
    st.plat = "manylinux_2_5_x86_64" \/ (st.plat = "manylinux_2_17_x86_64" /\ p # "manylinux_2_17") =>
      Plan(InWheel(w, FALSE), Machine(w), [st EXCEPT !.plat = p \o "_x86_64"], Host).kind = "ok"

Broken ==
  (IF phase = "repaired"
   THEN ClauseFailures \cup Need(NoWaste, "waste") \cup Need(Complete, "incomplete") \cup Need(Unordered, "order-matters") \cup Need(Ladder, "ladder")
   ELSE {})
  \cup (IF phase \in {"repaired", "moved"} THEN Need(Reported(TLCEval(ShowAnalysis(wheel, sys, st, Host))), "report") ELSE {})
  \cup (IF phase = "refused" THEN Need(plan.kind # "ok" /\ prev = InWheel(w, FALSE), "refused-later") ELSE {})
  \cup (IF phase \in {"again", "again-there"} THEN Need(Idempotent, "not-idempotent") ELSE {})
Inv == LET b == TLCEval(Broken) IN b = {} \/ (PrintT(<<"BROKEN", phase, b, ToJson(w)>>) /\ FALSE)
=============================================================================

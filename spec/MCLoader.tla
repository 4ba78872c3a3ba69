------------------------------ MODULE MCLoader ------------------------------
(* Every small world: two libraries, two directories, search paths of the
   main object and of the libraries, the environment and the configuration.
   Checks that the audit's resolution has the properties a loader's has, and
   prints the worlds as cases for the real code.                           *)
EXTENDS Loader, Json
CONSTANTS Slots, Mains, MainPaths, LibPaths, Envs, Confs, Excludes, Emit

A == "libA.so.1"
B == "libB.so.2"
D1 == "/@/sys/d1"
D2 == "/@/sys/d2"
M == "/@/sys/m/main.so"
MainNeeds == [a |-> <<A>>, ab |-> <<A, B>>, ba |-> <<B, A>>, apb |-> <<A, "libpython3.so", B>>, aab |-> <<A, A, B>>]
PathOf == [none |-> [rpath |-> "", runpath |-> ""], rp1 |-> [rpath |-> "$ORIGIN/../d1", runpath |-> ""],
           run1 |-> [rpath |-> "", runpath |-> D1], rp2run1 |-> [rpath |-> D2, runpath |-> D1],
           rp2 |-> [rpath |-> "${ORIGIN}/../d2", runpath |-> ""], run2 |-> [rpath |-> "", runpath |-> "$ORIGIN/../d2"],
           both |-> [rpath |-> D2 \o ":" \o D1, runpath |-> ""]]
DirsOf == [none |-> <<>>, d1 |-> <<D1>>, d2 |-> <<D2>>, d12 |-> <<D1, D2>>, d21 |-> <<D2, D1>>]
Patterns == [none |-> <<>>, b |-> <<"libB*">>, d1 |-> <<D1 \o "/*">>, a |-> <<"*A.so.?">>]

VARIABLES w, phase
vars == <<w, phase>>

Elf(needed, ps, mach) == [t |-> "elf", sha |-> "", e |-> [bad |-> "", mach |-> mach, osabi |-> 0, needed |-> needed,
                          rpath |-> ps.rpath, runpath |-> ps.runpath, interp |-> ""]]
\* what a slot holds: name n in directory d
Node(k, n, d, lp) ==
  LET other == IF n = A THEN B ELSE A IN
  CASE k = "leaf" -> Elf(<<>>, PathOf["none"], "x86_64")
    [] k = "needs" -> Elf(<<other>>, PathOf[lp], "x86_64")
    [] k = "self" -> Elf(<<n, other>>, PathOf[lp], "x86_64")
    [] k = "foreign" -> Elf(<<other>>, PathOf["none"], "aarch64")
    [] k = "link" -> [t |-> "link", to |-> (IF d = D1 THEN "../d2/" ELSE "/@/sys/d1/") \o n]
Keys == [a1 |-> <<A, D1>>, a2 |-> <<A, D2>>, b1 |-> <<B, D1>>, b2 |-> <<B, D2>>]
Fs(x) ==
  LET used == {k \in DOMAIN Keys : x.slot[k] # "none"}
  IN [p \in {M} \cup {Keys[k][2] \o "/" \o Keys[k][1] : k \in used} |->
        IF p = M THEN Elf(MainNeeds[x.main], PathOf[x.mp], "x86_64")
        ELSE LET k == CHOOSE k \in used : p = Keys[k][2] \o "/" \o Keys[k][1]
             IN Node(x.slot[k], Keys[k][1], Keys[k][2], x.lp)]
Ctx(x) == [fs |-> Fs(x), wd |-> "/@/sys", env |-> DirsOf[x.env], conf |-> DirsOf[x.conf], interp |-> <<>>, exclude |-> Patterns[x.ex]]

Init == /\ w \in [slot : [DOMAIN Keys -> Slots], main : Mains, mp : MainPaths, lp : LibPaths, env : Envs, conf : Confs, ex : Excludes]
        /\ phase = "world"
Resolve == /\ phase = "world" /\ phase' = "resolved"
           /\ (Emit => PrintT(<<"CASE", ToJson(w)>>))
           /\ UNCHANGED w
Next == Resolve
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ what must hold
Followed(c, T, n) == T.libs[n].real # ""
\* names reached from the main object through resolved files
RECURSIVE Reach(_, _, _)
Reach(c, T, S) ==
  LET more == S \cup UNION {IF n \in DOMAIN T.libs THEN IF Followed(c, T, n) THEN ToSet(c.fs[T.libs[n].real].e.needed) ELSE {} ELSE {} : n \in S}
  IN IF more = S THEN S ELSE Reach(c, T, more)
Requesters(c, T, n) == {p \in {M} \cup {T.libs[x].real : x \in DOMAIN T.libs} : p # "" /\ n \in ToSet(c.fs[p].e.needed)}
DirsFor(c, p) == LET m == ObjDirs(c, M) o == ObjDirs(c, p) IN m.rpath \o o.rpath \o o.runpath \o c.env \o m.runpath \o c.conf
ExcludedOnce(c, n, p) == Excluded(c, n) \/ (p # "" /\ Excluded(c, p))

Inv ==
  phase = "world" \/
  LET c == Ctx(w)
      T == TLCEval(Ldd(c, M))
      reach == Reach(c, T, ToSet(c.fs[M].e.needed))
  IN \* every name reached is in the tree exactly when it is not excluded, and nothing else is
     /\ DOMAIN T.libs \subseteq reach
     /\ \A n \in reach \ DOMAIN T.libs :
          Excluded(c, n) \/ \A p \in Requesters(c, T, n) : Excluded(c, FindLib(c.fs, c.fs[M].e, n, DirsFor(c, p)))
     /\ \A n \in DOMAIN T.libs : ~Excluded(c, n)
     \* what is resolved is the first compatible file for one of those that need it; what is not resolved cannot be
     /\ \A n \in DOMAIN T.libs :
          IF IsLibpython(n) THEN T.libs[n].real = ""
          ELSE \E p \in Requesters(c, T, n) : T.libs[n].real = FindLib(c.fs, c.fs[M].e, n, DirsFor(c, p))
     /\ \A n \in DOMAIN T.libs : T.libs[n].real # "" => /\ Compatible(c.fs[M].e, c.fs[T.libs[n].real].e)
                                                        /\ c.fs[T.libs[n].real].t = "elf"
                                                        /\ ~Excluded(c, T.libs[n].real)
     \* an object's own search paths decide as they do at run time
     /\ LET n == c.fs[M].e.needed[1]
            rt == RtLookup(c.fs, <<M>>, n)
        IN rt # "" /\ ~Excluded(c, rt) /\ n \in DOMAIN T.libs => T.libs[n].real = rt
     /\ LET n == c.fs[M].e.needed[1] IN
        IF n \notin DOMAIN T.libs THEN TRUE ELSE
        LET p == T.libs[n].real IN
        IF p = "" \/ c.fs[M].e.rpath # "" THEN TRUE
        ELSE \A k \in DOMAIN T.libs \ {n} : k \in ToSet(c.fs[p].e.needed) =>
               LET rt == RtLookup(c.fs, <<M, p>>, k) IN rt # "" /\ ~Excluded(c, rt) => T.libs[k].real = rt
     \* the needs shown for an object are its own, without the excluded ones
     /\ \A n \in DOMAIN T.libs : T.libs[n].real # "" =>
          /\ ToSet(T.libs[n].needed) \subseteq ToSet(c.fs[T.libs[n].real].e.needed)
          /\ ToSet(T.libs[n].needed) \subseteq DOMAIN T.libs
=============================================================================

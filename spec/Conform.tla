------------------------------ MODULE Conform ------------------------------
(* Judges recorded executions.  Every trace is one initial state; evaluating
   it yields the set of violated clauses of property VERIF_PROP.            *)
EXTENDS Api

Prop == IOEnv.VERIF_PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* ------------------------------------------------ one step
NewWheels(s) == ToSet(s.outw)
\* the wheel written for a single-wheel repair step
StepVerdict(tr, sys, s) ==
  IF Len(s.inw) # 1 \/ ~s.inw[1].ok THEN {}
  ELSE LET wi == s.inw[1]
           pl == TLCEval(Plan(wi, sys, s, tr.host))
           outs == s.outw
       IN CASE pl.kind = "refuse" ->
                 IF Prop = "C03" THEN Need(s.exit # 0, "accepted(" \o pl.why \o ")") \cup Need(outs = <<>>, "wheel-written(" \o pl.why \o ")")
                 ELSE IF Prop = "C20" /\ pl.why = "notplat" THEN Need(s.exit # 0, "accepted") \cup Need(outs = <<>>, "wheel-written")
                 ELSE IF Prop = "C10" /\ pl.why \in {"notplat", "purelib", "libc", "pylibc", "arch", "musl", "android"} THEN Need(s.exit # 0, "accepted(" \o pl.why \o ")")
                 ELSE IF Prop = "C22" THEN Need(s.exit # 0, "accepted(" \o pl.why \o ")") \cup Need(outs = <<>>, "wheel-written(" \o pl.why \o ")")
                 ELSE IF Prop = "C02" THEN Need(s.exit # 0, "accepted(" \o pl.why \o ")")
                 ELSE IF Prop = "C06" THEN Untouched(s)
                 ELSE {}
            [] pl.kind = "copy" ->
                 IF Prop = "C20" THEN Need(s.exit = 0 /\ Len(outs) = 1, "not-copied")
                      \cup Need(\A k \in 1..Len(outs) : outs[k].ok /\ outs[k].fname = wi.fname /\ outs[k].sha = wi.sha, "copy-differs")
                 ELSE {}
            [] OTHER ->
                 IF s.exit # 0 \/ Len(outs) # 1 \/ ~(IF Len(outs) = 1 THEN outs[1].ok ELSE FALSE)
                 THEN IF Prop \in {"C03", "C12", "C16", "C19", "C24"} THEN {"refused"}
                      ELSE IF Prop \in {"C16", "C01"} THEN Need(s.exit # 0 \/ (Len(outs) = 1 /\ outs[1].ok), "no-wheel")
                      ELSE IF Prop \in {"C10", "C22", "C21", "C19", "C24", "C02"} THEN {"refused"}
                      ELSE IF Prop = "C06" THEN Untouched(s) ELSE {}
                 ELSE LET wo == outs[1] IN
                      CASE Prop = "C01" -> C01Wheel(pl, s, wi, wo)
                        [] Prop = "C02" -> C02Wheel(pl, s, wi, wo)
                        [] Prop = "C05" -> C05Wheel(wo)
                        [] Prop = "C06" -> C06Wheel(pl, s, wi, wo) \cup Untouched(s)
                        [] Prop = "C09" -> C09Wheel(pl, s, wi, wo)
                        [] Prop = "C12" -> C12Wheel(pl, s, wi, wo) \cup C01Wheel(pl, s, wi, wo)
                        [] Prop = "C14" -> C14Wheel(pl, s, wi, wo, tr.host)
                        [] Prop = "C16" -> C16Wheel(s, wi, wo)
                        [] Prop = "C19" -> C19Wheel(pl, s, wi, wo) \cup C01Wheel(pl, s, wi, wo)
                        [] Prop = "C21" -> C21Wheel(pl, s, wi, wo) \cup Untouched(s)
                        [] Prop = "C24" -> C24Wheel(tr, pl, s, wi, wo)
                        [] Prop = "C10" -> C09Wheel(pl, s, wi, wo)
                        [] Prop = "C22" -> C09Wheel(pl, s, wi, wo) \cup C01Wheel(pl, s, wi, wo) \cup C14Wheel(pl, s, wi, wo, tr.host)
                        [] OTHER -> {}

\* ------------------------------------------------ show
RefsJson(A, i) == [s \in A.names[i] |-> {x[2] : x \in {y \in A.agg[i] : y[1] = s}}]
LibVers(reqs) == [l \in {r[1] : r \in reqs} |-> {r[2] : r \in {q \in reqs : q[1] = l}}]
IsSortedSeq(q) == q = SortedStrs(ToSet(q))
ShowVerdict(tr, sys, s) ==
  LET wi == s.inw[1]
      A == TLCEval(ShowAnalysis(wi, sys, s, tr.host))
      j == s.js
      np == Len(A.pols)
  IN IF A.kind = "ok" THEN
       IF s.exit # 0 THEN {"failed"}
       ELSE IF ~s.json THEN
            IF Prop = "C17" /\ np > 1
            THEN Need(s.text = ShowText(A, wi.fname, s.verbose, LAMBDA i : RefsJson(A, i), LibVers(A.reqs[A.symFrom]), s.text), "text")
            ELSE IF Prop \in {"C02", "C17", "C10"} THEN Need(HasSub(s.text, "platform tag: \"" \o A.pols[A.overall].name \o "\"."), "text-tag") ELSE {}
       ELSE IF ~j.valid \/ j.kind # "platform" THEN IF Prop \in {"C02", "C17", "C10", "C22", "C04"} THEN {"no-report"} ELSE {}
       ELSE IF Prop \in {"C02", "C10", "C22", "C04"} THEN
            Need(j.overall_tag = A.pols[A.overall].name, "overall-tag")
            \cup (IF Prop = "C02" THEN Need(j.sym_tag = A.pols[A.sym].name, "sym-tag")
                    \cup Need(j.ucs2 = (A.ucs = 1), "ucs2") \cup Need(j.pyfpe = (A.fpe = 1), "pyfpe")
                    \cup Need(j.unsupported_isa = (A.mach = 1), "isa") ELSE {})
       ELSE IF Prop = "C17" THEN
            Need(j.overall_tag = A.pols[A.overall].name, "overall-tag")
            \cup Need(j.wheel = wi.fname /\ j.version = 1 /\ ~j.pure, "header")
            \cup Need(j.sym_tag = A.pols[A.sym].name, "sym-tag")
            \cup Need(j.ucs2 = (A.ucs = 1), "ucs2") \cup Need(j.pyfpe = (A.fpe = 1), "pyfpe")
            \cup Need(j.unsupported_isa = (A.mach = 1), "isa")
            \cup Need(LET want == LibVers(A.reqs[A.symFrom]) IN
                      /\ {j.versioned_symbols[i].k : i \in 1..Len(j.versioned_symbols)} = DOMAIN want
                      /\ \A i \in 1..Len(j.versioned_symbols) : ToSet(j.versioned_symbols[i].v) = want[j.versioned_symbols[i].k]
                                                                 /\ IsSortedSeq(j.versioned_symbols[i].v), "versioned-symbols")
            \cup Need(LET want == RefsJson(A, np) IN
                      /\ {j.external_libs[i].k : i \in 1..Len(j.external_libs)} = DOMAIN want
                      /\ \A i \in 1..Len(j.external_libs) : j.external_libs[i].v \in want[j.external_libs[i].k], "external-libs")
            \cup Need(/\ IsSortedSeq(SeqMap(LAMBDA x : x.k, j.versioned_symbols)) /\ IsSortedSeq(SeqMap(LAMBDA x : x.k, j.external_libs))
                      /\ \A k \in 1..Len(j.policy_upgrades) : IsSortedSeq(SeqMap(LAMBDA x : x.k, j.policy_upgrades[k].black))
                      /\ SeqMap(LAMBDA x : x.k, j.policy_upgrades) = SelectSeq(SeqMap(LAMBDA p : p.name, A.pols),
                              LAMBDA n : \E k \in 1..Len(j.policy_upgrades) : j.policy_upgrades[k].k = n), "order")
            \cup Need(LET ups == {i \in (A.overall + 1)..np : A.names[i] # {} \/ A.blks[i] # {}}
                          ju == j.policy_upgrades
                      IN /\ {ju[k].k : k \in 1..Len(ju)} = {A.pols[i].name : i \in ups}
                         /\ \A k \in 1..Len(ju) : \A i \in ups : A.pols[i].name = ju[k].k =>
                              /\ ToSet(ju[k].libs) = A.names[i] /\ IsSortedSeq(ju[k].libs)
                              /\ UNION {{<<ju[k].black[m].k, x>> : x \in ToSet(ju[k].black[m].v)} : m \in 1..Len(ju[k].black)} = A.blks[i],
                      "policy-upgrades")
       ELSE {}
     ELSE IF A.kind = "notplat" THEN
       IF s.pure /\ NamePure(wi.fname)
       THEN Need(s.exit = 0, "pure-failed") \cup (IF s.json THEN Need(j.valid /\ j.kind = "pure" /\ j.wheel = wi.fname, "pure-report") ELSE {})
       ELSE Need(s.exit # 0, "accepted") \cup (IF s.json THEN Need(j.valid /\ j.kind = "error" /\ j.wheel = wi.fname, "error-report") ELSE {})
     ELSE Need(s.exit # 0, "accepted(" \o A.kind \o ")")

ShimVerdict(tr, sys, s) ==
  LET r == tr.st[1] IN
  IF r.op # "repair" \/ r.exit # 0 \/ Len(r.outw) # 1 \/ Len(s.outw) # 1 THEN {}
  ELSE LET pl == TLCEval(Plan(r.inw[1], sys, r, tr.host)) IN
       IF pl.kind = "ok" THEN C19Run(pl, r.inw[1], s.outw[1]) ELSE {}

StepOf(tr, sys, s) ==
  IF s.op = "repair" THEN StepVerdict(tr, sys, s)
  ELSE IF s.op = "show" /\ Len(s.inw) = 1 /\ s.inw[1].ok /\ Prop \in {"C02", "C04", "C10", "C17", "C20", "C22"} THEN ShowVerdict(tr, sys, s)
  ELSE IF s.op = "pack" THEN PackVerdict(s)
  ELSE IF s.op = "runshim" THEN ShimVerdict(tr, sys, s)
  ELSE {}

Steps(tr) ==
  LET sys == SysOf(tr)
  IN UNION {{ToString(i) \o ":" \o c : c \in StepOf(tr, sys, tr.st[i])} : i \in 1..Len(tr.st)}

TraceVerdict(tr) ==
  CASE Prop = "C16" /\ tr.kind = "pack" -> Steps(tr) \cup PackAgain(tr)
    [] tr.kind = "api" -> ApiVerdict(tr)
    [] tr.kind = "tools" -> ToolsVerdict(tr, SysOf(tr))
    [] tr.kind = "fault" -> FaultVerdict(tr)
    [] tr.kind = "batch" -> BatchVerdict(tr)
    [] tr.kind = "pair" -> PairVerdict(tr)
    [] tr.kind = "same" -> SameVerdict(tr)
    [] tr.kind = "alone" -> AloneVerdict(tr)
    [] tr.kind = "twice" -> TwiceVerdict(tr, SysOf(tr))
    [] Prop = "C20" -> SessionVerdict(tr, SysOf(tr)) \cup LET sys == SysOf(tr) IN
         UNION {IF tr.st[i].op = "show" THEN {ToString(i) \o ":" \o c : c \in StepOf(tr, sys, tr.st[i])} ELSE {} : i \in 1..Len(tr.st)}
    [] OTHER -> Steps(tr)

VARIABLES idx, verdict
vars == <<idx, verdict>>
Waiting == {"pending"}
Init == idx \in 1..Len(Traces) /\ verdict = Waiting
Next == /\ verdict = Waiting
        /\ LET v == TraceVerdict(Traces[idx]) IN
           /\ PrintT(<<"VERDICT", Traces[idx].id, v>>)
           /\ verdict' = v
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE Histories -----------------------------
(* Properties of histories of operations: several wheels in one command,
   repeated repairs, packing, installed launchers, faults, environments. *)
EXTENDS Report

\* ------------------------------------------------ C16: unpack and pack
PackVerdict(s) ==
  IF Len(s.inw) # 1 \/ ~s.inw[1].ok THEN {}
  ELSE IF s.exit # 0 \/ Len(s.outw) # 1 THEN {"failed"}
  ELSE LET wi == s.inw[1] wo == s.outw[1]
           gone == IF s.via = "ctx" THEN SignatureNames(wi) ELSE {}
           made == IF s.via = "ctx" THEN {RecordName(wi)} ELSE {}
           given == IF s.via = "zip" THEN s.date ELSE IF s.sde >= 0 THEN s.sde ELSE -2
           st == [sde |-> given, zlevel |-> s.zlevel]
       IN IF ~wo.ok THEN {"bad-archive"}
          ELSE C16Wheel(st, wi, wo)
               \cup Need(FileNames(wo) = (FileNames(wi) \ gone) \cup made, "files")
               \cup Need(\A n \in FileNames(wi) \ (gone \cup made) : HasEntry(wo, n) => Entry(wo, n).sha = Entry(wi, n).sha, "contents")
               \cup Need(\A n \in FileNames(wi) \ gone : HasEntry(wo, n) => Entry(wo, n).mode = UnpackMode(Entry(wi, n)), "modes")
               \cup Need(DirNames(wo) = AllDirs(FileNames(wo), DirNames(wi)), "directories")
               \cup Need(Cardinality({e.n : e \in Ents(wo)}) = Len(wo.ents), "duplicates")
               \cup (IF s.via = "zip" THEN Need({[p |-> n, mode |-> UnpackMode(Entry(wi, n))] : n \in FileNames(wi)} = ToSet(s.tree), "unpacked-tree")
                     ELSE C05Wheel(wo))
\* packing a packed tree again with the same parameters changes nothing
PackAgain(tr) ==
  UNION {LET a == tr.st[1] b == tr.st[i] IN
         IF b.tag = "again" /\ a.exit = 0 /\ b.exit = 0 /\ Len(a.outw) = 1 /\ Len(b.outw) = 1 /\ a.zlevel = b.zlevel
            /\ a.via = b.via /\ a.sde = b.sde /\ a.date = b.date /\ (a.via = "zip" => a.date # -2) /\ (a.via = "ctx" => a.sde >= 0)
         THEN Need(a.outw[1].sha = b.outw[1].sha, ToString(i) \o ":repacked-differs") ELSE {} : i \in 2..Len(tr.st)}

\* ------------------------------------------------ C19: installed launchers
\* wo: the repaired wheel with what its launchers did
C19Run(pl, wi, wo) ==
  LET must == {n \in Users(pl) : IsScript(n)}
      ran == ToSet(wo.shims)
  IN Need(must \subseteq {s.n : s \in ran}, "launcher-not-run")
     \cup UNION {Need(s.ran = MovedScript(wi, s.n), "launcher-runs-other:" \o s.n) \cup Need(s.args, "arguments:" \o s.n)
                 \cup Need(s.status, "exit-status:" \o s.n) \cup Need(s.hashbang, "not-a-python-script:" \o s.n) : s \in ran}

\* ------------------------------------------------ C07: failures
SameAs(ref, s) == {x \in ToSet(s.pre) : \A y \in ToSet(ref.post) : y.n # x.n} \cup ToSet(ref.post)
FaultStep(ref, s) ==
  LET kill == s.faultkind = "kill" /\ s.died
      nothing == ToSet(s.post) = ToSet(s.pre)
      whole == ref.exit = 0 /\ ToSet(s.post) = SameAs(ref, s)
      \* the result was complete when the fault struck
      late == whole /\ ToSet(s.atfire) = ToSet(s.post)
  IN (IF s.exit = 0 THEN Need(whole, "success-reported(" \o s.fired \o ")")
      ELSE Need(nothing \/ late \/ (kill /\ whole), "wheel-left(" \o s.fired \o ")"))
     \cup Need(\A p \in ToSet(s.changed) : ~StartsWith(p, "/@/in/") /\ ~StartsWith(p, "/@/sys/") /\ ~StartsWith(p, "/@/cwd/"), "foreign-file-changed")
     \cup Need(kill \/ s.removing \/ s.tmp = <<>>, "temporary-files(" \o s.fired \o ")")
     \cup Need(kill \/ s.removing \/ whole \/ s.touched = <<>>, "files-left(" \o s.fired \o ")")
     \cup Need(kill \/ s.cwd \/ StartsWith(s.fired, "os.chdir"), "working-directory(" \o s.fired \o ")")
FaultVerdict(tr) ==
  UNION {IF tr.st[i].tag = "fault" THEN {ToString(i) \o ":" \o c : c \in FaultStep(tr.st[1], tr.st[i])} ELSE {} : i \in 1..Len(tr.st)}

\* several wheels in one command: tr.st holds, tagged "ref", every wheel repaired alone
RECURSIVE Overlay(_, _)
Overlay(dir, refs) ==
  IF refs = <<>> THEN dir
  ELSE Overlay({x \in dir : \A y \in ToSet(Head(refs).post) : y.n # x.n} \cup ToSet(Head(refs).post), Tail(refs))
BatchStep(refs, s) ==
  LET n == Len(refs)
      bad == {k \in 1..n : refs[k].exit # 0}
      full == IF bad = {} THEN n ELSE Min(bad) - 1
      at == TLCEval([k \in 0..full |-> Overlay(ToSet(s.pre), SubSeq(refs, 1, k))])
      post == ToSet(s.post)
      fits == {k \in 0..full : at[k] = post}
      kill == s.faultkind = "kill" /\ s.died
      mine(k) == {s.out \o "/" \o x.n : x \in UNION {ToSet(refs[i].post) : i \in 1..k}}
      tidy == \E k \in fits : ToSet(s.touched) \subseteq mine(k)
      struck == s.fired # "" \/ s.faultkind \in {"fsize", "tool"} \/ s.died
  IN Need(fits # {}, "wheels-left(" \o s.fired \o ")")
     \cup Need(s.exit = 0 => full = n /\ n \in fits, "success-reported(" \o s.fired \o ")")
     \cup Need(s.exit # 0 /\ fits = {n} => kill \/ at[n] = ToSet(s.pre) \/ ToSet(s.atfire) = post , "failure-reported(" \o s.fired \o ")")
     \cup Need(struck \/ (s.exit = 0) = (full = n), "exit")
     \cup Need(struck \/ full \in fits, "wheels")
     \cup Need(\A p \in ToSet(s.changed) : ~StartsWith(p, "/@/in/") /\ ~StartsWith(p, "/@/sys/") /\ ~StartsWith(p, "/@/cwd/"), "foreign-file-changed")
     \cup Need(kill \/ s.removing \/ s.tmp = <<>>, "temporary-files(" \o s.fired \o ")")
     \cup Need(kill \/ s.removing \/ fits = {} \/ tidy, "files-left(" \o s.fired \o ")")
     \cup Need(kill \/ s.cwd \/ StartsWith(s.fired, "os.chdir"), "working-directory(" \o s.fired \o ")")
BatchVerdict(tr) ==
  LET refs == SelectSeq(tr.st, LAMBDA t : t.tag = "ref") IN
  UNION {IF tr.st[i].tag \in {"fault", "count"} THEN {ToString(i) \o ":" \o c : c \in BatchStep(refs, tr.st[i])} ELSE {} : i \in 1..Len(tr.st)}

\* ------------------------------------------------ C26: two commands at the same time
\* refs: each alone; s: the first, with the second run to its end at some point of the first
PairStep(ra, rb, s) ==
  LET pre == ToSet(s.pre)
      at == ToSet(s.atfire)
      mid == ToSet(s.mid)
      post == ToSet(s.post)
      orders == {Overlay(pre, <<ra, rb>>), Overlay(pre, <<rb, ra>>)}
      mine == {s.out \o "/" \o x.n : x \in ToSet(ra.post) \cup ToSet(rb.post)}
      w == "(" \o s.fired \o ")"
  IN Need((s.exit = 0) = (ra.exit = 0), "first-disturbed" \o w)
     \cup Need((s.oexit = 0) = (rb.exit = 0), "second-disturbed" \o w)
     \cup Need(at \in {pre, Overlay(pre, <<ra>>)}, "unfinished-wheel" \o w)
     \cup Need(mid = Overlay(at, <<rb>>), "second-result" \o w)
     \cup Need(post \in orders /\ (at # pre => post = mid), "results" \o w)
     \cup Need(s.tmp = <<>>, "temporary-files" \o w)
     \cup Need(ToSet(s.touched) \subseteq mine, "files-left" \o w)
     \cup Need(\A p \in ToSet(s.changed) : ~StartsWith(p, "/@/in/") /\ ~StartsWith(p, "/@/sys/") /\ ~StartsWith(p, "/@/cwd/"), "foreign-file-changed")
PairVerdict(tr) ==
  LET refs == SelectSeq(tr.st, LAMBDA t : t.tag = "ref") IN
  UNION {IF tr.st[i].tag = "pair" THEN {ToString(i) \o ":" \o c : c \in PairStep(refs[1], refs[2], tr.st[i])} ELSE {} : i \in 1..Len(tr.st)}

\* ------------------------------------------------ C08: same inputs, same bytes
SameVerdict(tr) ==
  LET a == tr.st[1] IN
  UNION {LET b == tr.st[i]
             one == Need(a.exit = b.exit /\ a.exc = b.exc, "exit") \cup Need(a.post = b.post, "output") \cup Need(a.osha = b.osha, "printed")
         IN {ToString(i) \o ":" \o c : c \in one} : i \in 2..Len(tr.st)}

\* ------------------------------------------------ C13: a history against every command alone
RECURSIVE Fold13(_, _)
\* files left by the commands before the first failing one; later ones win
Fold13(q, acc) ==
  IF q = <<>> \/ Head(q).exit # 0 THEN acc
  ELSE Fold13(Tail(q), {x \in acc : \A y \in ToSet(Head(q).post) : y.n # x.n} \cup ToSet(Head(q).post))
AloneVerdict(tr) ==
  LET n == Len(tr.st)
      one(i) ==
        LET s == tr.st[i]
            mine == SelectSeq(tr.st, LAMBDA t : t.grp = s.grp /\ t.sub > 0)
            failed == {k \in 1..Len(mine) : mine[k].exit # 0}
        IN (IF failed = {} THEN Need(s.exit = 0, "fails-in-history")
            ELSE Need(s.exit = mine[Min(failed)].exit /\ s.exc = mine[Min(failed)].exc, "exit"))
           \cup Need(ToSet(s.post) = Fold13(mine, {}), "output")
           \cup (IF s.op = "show" THEN Need(s.js = mine[1].js /\ s.text = mine[1].text, "report") ELSE {})
           \cup Need(s.tmp = <<>> /\ s.cwd, "left-behind")
  IN UNION {{ToString(i) \o ":" \o c : c \in one(i)} : i \in {k \in 1..n : tr.st[k].sub = 0 /\ tr.st[k].op # "env"}}

\* ------------------------------------------------ C15: repairing and reporting again
TwiceVerdict(tr, sys) ==
  LET a == tr.st[1] b == tr.st[2] r == tr.st[3] IN
  IF a.exit # 0 \/ Len(a.outw) # 1 THEN {}
  ELSE LET wi == a.outw[1]
           pl == TLCEval(Plan(a.inw[1], sys, a, tr.host))
           same(n) == HasEntry(b.outw[1], n) /\ Entry(b.outw[1], n).sha = Entry(wi, n).sha /\ Entry(b.outw[1], n).mode = Entry(wi, n).mode
           \* a wheel that keeps its tags is only reported on if it could be before (no --plat tells its libc)
           mute == ~a.update_tags /\ ShowAnalysis(a.inw[1], sys, r, tr.host).kind # "ok"
       IN (IF b.exit # 0 \/ Len(b.outw) # 1 \/ ~b.outw[1].ok THEN {"2:refused"}
           ELSE Need(FileNames(b.outw[1]) = FileNames(wi), "2:files")
                \cup UNION {Need(same(n), "2:content:" \o n) : n \in FileNames(wi)}
                \cup Need(b.outw[1].fname = wi.fname /\ b.outw[1].wmeta = wi.wmeta, "2:tags"))
          \cup (IF pl.kind # "ok" THEN {"1:unexpected"}
                ELSE IF a.exclude # <<>> THEN {}
                ELSE IF r.exit # 0 \/ ~r.js.valid \/ r.js.kind # "platform" THEN (IF mute THEN {} ELSE {"3:no-report"})
                ELSE LET pols == pl.A.pols
                         got == PolIndex(pols, r.js.overall_tag)
                         ju == r.js.policy_upgrades
                     IN Need(got >= pl.ai, "3:lower-platform")
                        \cup Need(\A k \in 1..Len(ju) : PolIndex(pols, ju[k].k) > pl.ai, "3:libraries-to-eliminate"))

\* ------------------------------------------------ C20: several wheels, some without binaries
RECURSIVE SessionFold(_, _, _, _, _)
\* st: [ok, made: file name -> content hash, "" unknown]
SessionFold(tr, sys, s, i, acc) ==
  IF i > Len(s.paths) \/ ~acc.ok THEN acc
  ELSE LET ws == SelectSeq(s.inw, LAMBDA w : w.path = s.paths[i]) IN
       IF ws = <<>> THEN [acc EXCEPT !.ok = FALSE]
       ELSE IF ~ws[1].ok THEN [acc EXCEPT !.ok = FALSE]
       ELSE LET wi == ws[1]
                pl == TLCEval(Plan(wi, sys, s, tr.host))
            IN CASE pl.kind = "refuse" -> [acc EXCEPT !.ok = FALSE]
                 [] pl.kind = "copy" -> SessionFold(tr, sys, s, i + 1, [acc EXCEPT !.made = (wi.fname :> wi.sha) @@ @])
                 [] OTHER -> SessionFold(tr, sys, s, i + 1, [acc EXCEPT !.made = (OutName(pl, s, wi) :> "") @@ @])
SessionStep(tr, sys, s) ==
  LET r == TLCEval(SessionFold(tr, sys, s, 1, [ok |-> TRUE, made |-> EmptyFn]))
      post == ToSet(s.post)
      before == {x \in ToSet(s.pre) : x.n \notin DOMAIN r.made}
  IN Need((s.exit = 0) = r.ok, IF r.ok THEN "refused" ELSE "accepted")
     \cup Need({x.n : x \in post} = {x.n : x \in before} \cup DOMAIN r.made, "wheels-written")
     \cup Need(before \subseteq post, "other-wheel-changed")
     \cup Need(\A x \in post : x.n \in DOMAIN r.made /\ r.made[x.n] # "" => x.sha = r.made[x.n], "copy-differs")
     \cup Need(s.tmp = <<>> /\ s.cwd, "left-behind")
     \cup Need(\A k \in 1..Len(s.outw) : s.outw[k].ok, "bad-archive")
SessionVerdict(tr, sys) ==
  UNION {IF tr.st[i].op = "repair" THEN {ToString(i) \o ":" \o c : c \in SessionStep(tr, sys, tr.st[i])} ELSE {} : i \in 1..Len(tr.st)}
=============================================================================

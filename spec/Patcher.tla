------------------------------ MODULE Patcher ------------------------------
(* The queue of pending edits of ELF files.

   A state is [files: path -> [soname, needed, rpath, runpath],
               links: path -> path,  upd: path -> pending edit].
   Do(st, q, c) is the transition for request q in configuration
   c = [edits |-> can the patcher edit?, android |-> .., api |-> ..]; it yields
   the next state, whether the request is rejected, and (queries) the answer.  *)
EXTENDS Str

NoEdit == [so |-> FALSE, soname |-> "", setr |-> FALSE, rpath |-> "", clear |-> FALSE, rem |-> {}, rep |-> <<>>]

RECURSIVE RealName(_, _, _)
RealName(st, n, fuel) == IF n \in DOMAIN st.links /\ fuel > 0 THEN RealName(st, st.links[n], fuel - 1) ELSE n
Real(st, n) == RealName(st, n, 5)
Exists(st, n) == Real(st, n) \in DOMAIN st.files
Pending(st, f) == IF f \in DOMAIN st.upd THEN st.upd[f] ELSE NoEdit
Put(st, f, u) == [st EXCEPT !.upd = (f :> u) @@ @]
Names(pairs) == UNION {{pairs[i][1], pairs[i][2]} : i \in 1..Len(pairs)}
IsEdit(u) == u.so \/ u.setr \/ u.clear \/ u.rem # {} \/ u.rep # <<>>

Direct(e) == IF e.runpath # "" THEN e.runpath ELSE e.rpath
\* the search path the file will have once the queue is applied
PendingPath(st, f) ==
  LET u == Pending(st, f)
  IN IF u.setr THEN u.rpath ELSE IF u.clear THEN "" ELSE Direct(st.files[f])

\* the last replacement given for a name counts
Subst(rep, n) == LET hit == {i \in 1..Len(rep) : rep[i][1] = n} IN IF hit = {} THEN n ELSE rep[Max(hit)][2]
Edited(e, u, android) ==
  [soname |-> IF u.so THEN u.soname ELSE e.soname,
   needed |-> SeqMap(LAMBDA n : Subst(u.rep, n), SelectSeq(e.needed, LAMBDA n : n \notin u.rem)),
   rpath |-> IF u.setr THEN (IF android THEN "" ELSE u.rpath) ELSE IF u.clear THEN "" ELSE e.rpath,
   runpath |-> IF u.setr THEN (IF android THEN u.rpath ELSE "") ELSE IF u.clear THEN "" ELSE e.runpath]
Applied(st, c) ==
  [st EXCEPT !.files = [f \in DOMAIN st.files |-> Edited(st.files[f], Pending(st, f), c.android)], !.upd = <<>>]

Ok(st) == [st |-> st, err |-> FALSE, ret |-> ""]
Rejected(st) == [st |-> st, err |-> TRUE, ret |-> ""]

Do(st, q, c) ==
  IF q.k = "apply" THEN
    IF c.edits THEN Ok(Applied(st, c))
    ELSE IF \E f \in DOMAIN st.upd : IsEdit(st.upd[f]) THEN Rejected([st EXCEPT !.upd = <<>>]) ELSE Ok([st EXCEPT !.upd = <<>>])
  ELSE IF ~Exists(st, q.f) THEN Rejected(st)
  ELSE
  LET f == Real(st, q.f)
      u == Pending(st, f)
  IN CASE q.k = "soname" -> Ok(Put(st, f, [u EXCEPT !.so = TRUE, !.soname = q.a[1][1]]))
       [] q.k = "replace" -> IF Names(q.a) \cap u.rem # {} THEN Rejected(st) ELSE Ok(Put(st, f, [u EXCEPT !.rep = @ \o q.a]))
       [] q.k = "remove" -> LET ns == {q.a[i][1] : i \in 1..Len(q.a)} IN
                            IF Names(u.rep) \cap ns # {} THEN Rejected(st) ELSE Ok(Put(st, f, [u EXCEPT !.rem = @ \cup ns]))
       [] q.k = "rpath" -> IF c.android /\ c.api < 24 THEN Rejected(st)
                           ELSE Ok(Put(st, f, [u EXCEPT !.setr = TRUE, !.rpath = q.a[1][1]]))
       [] q.k = "clear" -> Ok(Put(st, f, [u EXCEPT !.clear = TRUE]))
       [] q.k = "get" -> IF ~c.edits /\ ~u.setr /\ ~u.clear THEN Rejected(st) ELSE [st |-> st, err |-> FALSE, ret |-> PendingPath(st, f)]
       [] q.k = "move" -> LET new == q.a[1][1] IN
            Ok([st EXCEPT !.files = (new :> st.files[f]) @@ [g \in DOMAIN @ \ {f} |-> @[g]],
                          !.upd = IF f \in DOMAIN st.upd THEN (new :> u) @@ [g \in DOMAIN @ \ {f} |-> @[g]] ELSE @])
       [] OTHER -> Rejected(st)

\* Setting and then clearing a search path before applying leaves open which of the
\* two counts; the observed answer decides, and must be kept to.
Open(u) == u.setr /\ u.clear
Decide(st, f, observed) ==
  LET u == Pending(st, f) IN
  IF Open(u) /\ observed = "" /\ u.rpath # "" THEN Put(st, f, [u EXCEPT !.setr = FALSE])
  ELSE IF Open(u) THEN Put(st, f, [u EXCEPT !.clear = FALSE]) ELSE st

\* ------------------------------------------------ judging a recorded sequence
View(files) == [n \in {files[i].n : i \in 1..Len(files)} |->
                  LET x == CHOOSE y \in ToSet(files) : y.n = n
                  IN [soname |-> x.soname, needed |-> x.needed, rpath |-> x.rpath, runpath |-> x.runpath]]
Shas(files) == {<<files[i].n, files[i].sha>> : i \in 1..Len(files)}
RECURSIVE DecideAll(_, _, _)
DecideAll(st, fs, seen) ==
  IF fs = {} THEN st
  ELSE LET f == CHOOSE x \in fs : TRUE
       IN DecideAll(IF f \in DOMAIN seen THEN Decide(st, f, Direct(seen[f])) ELSE st, fs \ {f}, seen)
RECURSIVE JudgeSeq(_, _, _, _, _, _)
JudgeSeq(log, i, st, sh, c, acc) ==
  IF i > Len(log) THEN acc
  ELSE
  LET q == log[i]
      see == q.k \in {"apply", "move"}
      seen == IF see THEN View(q.files) ELSE <<>>
      st0 == IF q.k = "apply" /\ c.edits THEN DecideAll(st, DOMAIN st.upd, seen)
             ELSE IF q.k = "get" /\ q.err = "" /\ Exists(st, q.f) THEN Decide(st, Real(st, q.f), q.ret) ELSE st
      r == Do(st0, q, c)
      at == ToString(i) \o "-" \o q.k
      \* files nobody asked to change keep their bytes
      idle == {f \in DOMAIN st0.files : ~IsEdit(Pending(st0, f)) \/ ~c.edits}
      bad == (IF r.err # (q.err # "") THEN {at \o (IF r.err THEN ":accepted" ELSE ":rejected")} ELSE {})
             \cup (IF q.k = "get" /\ ~r.err /\ q.ret # r.ret THEN {at \o ":answer"} ELSE {})
             \cup (IF see /\ seen # r.st.files THEN {at \o ":files"} ELSE {})
             \cup (IF q.k = "apply" /\ \E x \in sh : x[1] \in idle /\ x \notin Shas(q.files) THEN {at \o ":untouched-file-changed"} ELSE {})
  IN IF q.k = "apply" /\ ~c.edits /\ r.err THEN acc \cup bad   \* what is left of a rejected queue is not specified
     ELSE JudgeSeq(log, i + 1, r.st, IF see THEN Shas(q.files) ELSE sh, c, acc \cup bad)

PatcherVerdict(s) ==
  LET c == [edits |-> s.patcher # "none", android |-> StartsWith(s.platform, "android"),
            api |-> IF StartsWith(s.platform, "android") THEN ToNat(Split(s.platform, "_")[2]) ELSE 0]
      st == [files |-> View(s.first), links |-> [n \in {s.links[i].n : i \in 1..Len(s.links)} |->
                                                   (CHOOSE y \in ToSet(s.links) : y.n = n).to], upd |-> <<>>]
  IN JudgeSeq(s.log, 1, st, Shas(s.first), c, {})
=============================================================================

----------------------------- MODULE Parallel -----------------------------
(* Several commands write their results into one directory at the same time.
   A command looks for the directory, creates it, writes its result piece by
   piece into a file of its own and gives the finished file the name of the
   wheel in one step.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Pieces == 2
\* cfg.goal: the name each command writes; cfg.out: none, empty, older;
\* cfg.shared: the file written has a name that depends on the goal only;
\* cfg.strict: creating a directory that exists is an error
Procs(cfg) == DOMAIN cfg.goal
TmpName(cfg, p) == IF cfg.shared THEN cfg.goal[p] \o ".part" ELSE ToString(p) \o ".part"
Goals(cfg) == {cfg.goal[p] : p \in Procs(cfg)}
\* a file is a number; its content a sequence of the commands that wrote the pieces (0: the older file)
Start(cfg) ==
  [exists |-> cfg.out # "none",
   names |-> IF cfg.out = "older" THEN {[n |-> g, f |-> 0] : g \in Goals(cfg)} ELSE {},
   data |-> [f \in 0..Cardinality(Procs(cfg)) |-> <<>>],
   handle |-> [p \in Procs(cfg) |-> 0],
   done |-> [p \in Procs(cfg) |-> 0],
   saw |-> [p \in Procs(cfg) |-> TRUE],
   pc |-> [p \in Procs(cfg) |-> "look"],
   last |-> [g \in Goals(cfg) |-> 0]]
FileOf(st, n) == {x.f : x \in {y \in st.names : y.n = n}}
Named(st, n, f) == {x \in st.names : x.n # n} \cup {[n |-> n, f |-> f]}
Without(st, n) == {x \in st.names : x.n # n}
Ended == {"ok", "failed", "dead"}

\* one step of command p
Step(cfg, st, p) ==
  LET t == TmpName(cfg, p)
      g == cfg.goal[p]
      go(x) == [st EXCEPT !.pc[p] = x]
  IN CASE st.pc[p] = "look" -> [go(IF st.exists THEN "open" ELSE "mkdir") EXCEPT !.saw[p] = st.exists]
     [] st.pc[p] = "mkdir" -> IF st.exists /\ cfg.strict THEN go("failed") ELSE [go("open") EXCEPT !.exists = TRUE]
     [] st.pc[p] = "open" -> LET old == FileOf(st, t)
                                 f == IF old = {} THEN p ELSE CHOOSE x \in old : TRUE
                             IN [go("write") EXCEPT !.names = Named(st, t, f), !.data[f] = <<>>, !.handle[p] = f]
     [] st.pc[p] = "write" ->
          \* every writer has its own offset in the file
          LET f == st.handle[p]
              k == st.done[p] + 1
              old == st.data[f]
              new == [i \in 1..(IF Len(old) < k THEN k ELSE Len(old)) |-> IF i = k THEN p ELSE IF i <= Len(old) THEN old[i] ELSE 99]
          IN [go(IF k = Pieces THEN "rename" ELSE "write") EXCEPT !.data[f] = new, !.done[p] = k]
     [] st.pc[p] = "rename" ->
          IF FileOf(st, t) = {} THEN go("failed")
          ELSE LET f == CHOOSE x \in FileOf(st, t) : TRUE
               IN [go("ok") EXCEPT !.names = {x \in st.names : x.n \notin {t, g}} \cup {[n |-> g, f |-> f]}, !.last[g] = p]
\* a failing command removes its own file
Fail(cfg, st, p) == [st EXCEPT !.pc[p] = "failed", !.names = Without(st, TmpName(cfg, p))]
Die(st, p) == [st EXCEPT !.pc[p] = "dead"]

Complete(cfg, st, f) == f = 0 \/ (\E q \in Procs(cfg) : st.data[f] = [i \in 1..Pieces |-> q])
=============================================================================

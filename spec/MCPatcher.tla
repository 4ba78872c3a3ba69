----------------------------- MODULE MCPatcher -----------------------------
(* Every sequence of N requests over two files and a symbolic link, in a
   configuration; printed as cases to be replayed on the real patcher.  *)
EXTENDS Patcher, Json
CONSTANTS N, Configs

VARIABLES st, log, c
vars == <<st, log, c>>

Conf == [linux |-> [edits |-> TRUE, android |-> FALSE, api |-> 0],
         none |-> [edits |-> FALSE, android |-> FALSE, api |-> 0],
         droid |-> [edits |-> TRUE, android |-> TRUE, api |-> 24],
         old |-> [edits |-> TRUE, android |-> TRUE, api |-> 21]]

F(needed, rp, rup) == [soname |-> "", needed |-> needed, rpath |-> rp, runpath |-> rup]
Files0 == ("f1" :> F(<<"a.so", "b.so", "c.so">>, "/old", "")) @@ ("f2" :> F(<<"a.so", "b.so">>, "", "/old2"))
Links0 == "l1" :> "f1"
Q(k, f, a) == [k |-> k, f |-> f, a |-> a]
\* requests; f2 only takes part as the other file
Reqs ==
  {Q("soname", "f1", <<<<"s1.so">>>>), Q("soname", "l1", <<<<"s2.so">>>>),
   Q("replace", "f1", <<<<"a.so", "a-1.so">>>>), Q("replace", "l1", <<<<"b.so", "b-1.so">>, <<"c.so", "c-1.so">>>>),
   Q("remove", "f1", <<<<"a.so">>>>), Q("remove", "l1", <<<<"c.so">>, <<"b.so">>>>), Q("remove", "f1", <<<<"a-1.so">>>>),
   Q("rpath", "f1", <<<<"$ORIGIN/x">>>>), Q("rpath", "l1", <<<<"$ORIGIN/longer/path:$ORIGIN">>>>),
   Q("clear", "f1", <<>>), Q("get", "l1", <<>>), Q("apply", "", <<>>),
   Q("move", "f1", <<<<"m/f3">>>>), Q("clear", "m/f3", <<>>), Q("replace", "m/f3", <<<<"b.so", "b-2.so">>>>),
   Q("rpath", "f2", <<<<"$ORIGIN/y">>>>), Q("remove", "f2", <<<<"b.so">>>>), Q("get", "f2", <<>>)}
\* replacing one name by two different ones is not meaningful
Sane(s, q) ==
  q.k = "replace" /\ Exists(s, q.f) =>
     LET u == Pending(s, Real(s, q.f)) IN \A i \in 1..Len(u.rep), j \in 1..Len(q.a) : u.rep[i][1] # q.a[j][1]
ReqOk(s, q) == Sane(s, q) /\ (q.k = "move" => q.f \in DOMAIN s.files)

Init == /\ c \in Configs
        /\ st = [files |-> Files0, links |-> Links0, upd |-> <<>>]
        /\ log = <<>>
Step == /\ Len(log) < N
        /\ \E q \in Reqs :
             /\ ReqOk(st, q)
             /\ st' = Do(st, q, Conf[c]).st
             /\ log' = Append(log, q)
        /\ UNCHANGED c
Emit == /\ Len(log) = N
        /\ PrintT(<<"CASE", ToJson([c |-> c, log |-> log])>>)
        /\ log' = Append(log, Q("end", "", <<>>))
        /\ UNCHANGED <<st, c>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ what the design guarantees
TypeOK == DOMAIN st.upd \subseteq DOMAIN st.files
\* no name is to be removed and replaced (or be a replacement) at the same time
NoConflict == \A f \in DOMAIN st.upd : Names(st.upd[f].rep) \cap st.upd[f].rem = {}
\* a query tells what applying would make of the search path
QueryAgrees ==
  \A f \in DOMAIN st.files : Conf[c].edits => Direct(Applied(st, Conf[c]).files[f]) = PendingPath(st, f)
\* applying again changes nothing
Idempotent == LET a == Applied(st, Conf[c]) IN Applied(a, Conf[c]) = a
\* other files are left alone
Local == \A f \in DOMAIN st.files : f \notin DOMAIN st.upd => Applied(st, Conf[c]).files[f] = st.files[f]
\* rejected requests have no effect
Harmless == \A q \in Reqs : q.k # "apply" /\ Do(st, q, Conf[c]).err => Do(st, q, Conf[c]).st = st
\* never both kinds of search path once edited
OneKind == \A f \in DOMAIN st.files : st.files[f].rpath = "" \/ st.files[f].runpath = ""
Inv == TypeOK /\ NoConflict /\ QueryAgrees /\ Idempotent /\ Local /\ Harmless /\ OneKind
=============================================================================

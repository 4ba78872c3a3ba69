----------------------------- MODULE MCParallel -----------------------------
(* Every interleaving of commands that write into one directory, with a crash
   or a failure of one of them at any point. With Shared or Strict the machine
   is one that breaks the invariants (a control, tried by hand).             *)
EXTENDS Parallel, Json
CONSTANTS N, Shared, Strict, Outs, Emit

VARIABLES cfg, st, fault
vars == <<cfg, st, fault>>
Init == /\ \E out \in Outs, goal \in [1..N -> {"w1", "w2"}] :
             /\ goal[1] = "w1"
             /\ cfg = [goal |-> goal, out |-> out, shared |-> Shared, strict |-> Strict]
        /\ st = Start(cfg)
        /\ fault = 0
\* the second command starts while the first one is there: a schedule for the real code
Case(p) == Emit /\ N = 2 /\ p = 2 /\ st.pc[2] = "look" /\ st.pc[1] # "look" /\ fault = 0
Next ==
  \E p \in Procs(cfg) :
    /\ st.pc[p] \notin Ended
    /\ UNCHANGED cfg
    /\ \/ /\ st' = Step(cfg, st, p) /\ UNCHANGED fault
          /\ Case(p) => PrintT(<<"CASE", ToJson([same |-> cfg.goal[1] = cfg.goal[2], out |-> cfg.out, at |-> st.pc[1], piece |-> st.done[1]])>>)
       \/ fault = 0 /\ fault' = p /\ st' = Fail(cfg, st, p)
       \/ fault = 0 /\ fault' = p /\ st' = Die(st, p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* whoever looks, and whenever: a wheel is the older one or the complete result of one command
Whole == \A x \in st.names : x.n \in Goals(cfg) =>
           Complete(cfg, st, x.f) /\ (x.f # 0 => \E q \in Procs(cfg) : cfg.goal[q] = x.n /\ st.data[x.f][1] = q)
\* nobody fails because of the others
Undisturbed == \A p \in Procs(cfg) : st.pc[p] = "failed" => fault = p
\* afterwards: the wheel of the last one to finish, and nothing else
Settled == (\A p \in Procs(cfg) : st.pc[p] \in Ended) =>
  /\ \A g \in Goals(cfg) : st.last[g] # 0 => \E f \in FileOf(st, g) : st.data[f][1] = st.last[g]
  /\ \A p \in Procs(cfg) : st.pc[p] \in {"ok", "failed"} => FileOf(st, TmpName(cfg, p)) = {}
Terminates == <>(\A p \in Procs(cfg) : st.pc[p] \in Ended)
Inv == Whole /\ Undisturbed /\ Settled
=============================================================================

----------------------------- MODULE MCCommands -----------------------------
(* Every command over up to N wheels, every state of the output directory and
   at most one fault at any point; printed as cases for the real code.       *)
EXTENDS Commands, Json
CONSTANTS N, Kinds, Outs, Emit

VARIABLES cfg, st, fault
vars == <<cfg, st, fault>>
SeqOf1(S, n) == UNION {[1..k -> S] : k \in 1..n}
Init == /\ cfg \in [wheels : SeqOf1(Kinds, N), pure : BOOLEAN, out : Outs]
        /\ st = Start(cfg)
        /\ fault = "none"
        /\ Emit => PrintT(<<"CASE", ToJson(cfg)>>)
Next == \/ st.end = "" /\ st' = Step(cfg, st) /\ UNCHANGED <<cfg, fault>>
        \/ /\ st.end = "" /\ fault = "none"
           /\ \E how \in {"error", "kill"} :
                /\ fault' = how \o ":" \o ToString(st.k) \o ":" \o st.ph
                /\ st' = Break(st, how)
           /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* at every moment (a crash point): only old files and complete results
Whole == \A x \in st.dir : x \in Before(cfg) \/ (\E k \in 1..Len(cfg.wheels) : x \in Upto(cfg, k))
\* at every moment the directory is that of some number of completed wheels
Steps == \E k \in 0..Completes(cfg) : st.dir = Upto(cfg, k)
\* the end
Ended == st.end # "" =>
  /\ st.end \in {"ok", "failed"} => st.tmp = {} /\ st.part = "" /\ st.cwd = "home"
  /\ \E k \in 0..Completes(cfg) : Explains(cfg, k, st.dir, st.end)
  /\ (fault = "none" => (st.end = "ok") = (Completes(cfg) = Len(cfg.wheels)) /\ st.dir = Upto(cfg, Completes(cfg)))
  /\ (st.end = "ok" => fault = "none")
Terminates == <>(st.end # "")
Inv == Whole /\ Steps /\ Ended
=============================================================================

------------------------------ MODULE MCTools ------------------------------
(* Every PATH of N directories over the given tools, every kind of wheel and
   option; printed as cases for the real code.                               *)
EXTENDS Tools, Json
CONSTANTS N, Texts, Strips, Emit

Patchelfs == [k : {"works"}, text : Texts] \cup [k : {"none", "noexec", "fails"}, text : {""}]
StripTools == [k : Strips, text : {""}]
VARIABLES cfg, st, hit
vars == <<cfg, st, hit>>
Init == /\ cfg \in [path : [1..N -> [patchelf : Patchelfs, strip : StripTools]],
                    what : {"copy", "refuse", "plain", "graft"}, patcher : {"patchelf", "none"}, strip : BOOLEAN]
        /\ st = Begin /\ hit = FALSE
        /\ Emit => PrintT(<<"CASE", ToJson(cfg)>>)
Next == \/ st.end = "" /\ st' = Proceed(cfg, st) /\ UNCHANGED <<cfg, hit>>
        \* a tool may fail at any time
        \/ st.end = "" /\ st.ph \in {"tools", "strip", "edit"} /\ st' = Stop(st, "failed") /\ hit' = TRUE /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

\* nothing is published before the command ends well
Publish == (st.dir # {}) <=> (st.end = "ok")
\* a result was edited and stripped by usable tools
Sound == "result" \in st.dir =>
           /\ (cfg.what = "graft" => st.edited /\ CanEdit(cfg.path))
           /\ (cfg.strip <=> st.stripped) /\ (cfg.strip => CanStrip(cfg.path))
Outcome == st.end # "" /\ ~hit => (st.end = "ok") = Works(cfg.path, Kind(cfg), cfg.patcher, cfg.strip)
\* a tool further down the path never matters when a usable name precedes it
First1 == \A n \in {"patchelf", "strip"} :
            cfg.path[1][n].k \in {"works", "fails"} => Found(cfg.path, n) = cfg.path[1][n]
Clean == st.end # "" => st.tmp = {}
Inv == Publish /\ Sound /\ Outcome /\ First1 /\ Clean
=============================================================================

----------------------------- MODULE MCOptions -----------------------------
(* Every combination of command line, environment and default of the options
   with an environment variable; precedence laws; cases to replay.          *)
EXTENDS Options
CONSTANTS PlatCli, PlatEnv, ZCli, ZEnv, PatCli, PatEnv, Emit

VARIABLES cfg, phase
vars == <<cfg, phase>>
Host == [libc |-> "glibc", musl |-> "", machine |-> "x86_64"]
No == [set |-> FALSE, v |-> ""]
E(v) == [set |-> TRUE, v |-> v]
Envs(S) == {No} \cup {E(v) : v \in S}
\* values on the command line, separated by commas; "-" for none
Cli(s) == IF s = "-" THEN <<>> ELSE Split(s, ",")
Opt(C, S) == [cli : {Cli(x) : x \in C}, env : Envs(S)]
Init == /\ phase = "given"
        /\ cfg \in [plat : Opt(PlatCli, PlatEnv), z : Opt(ZCli, ZEnv), patcher : Opt(PatCli, PatEnv),
                    L : {[cli |-> <<>>, env |-> No]}, w : {[cli |-> <<>>, env |-> No]}]
Parse == /\ phase = "given" /\ phase' = (IF Usage(cfg, Host) THEN "usage" ELSE "run")
         /\ (Emit => PrintT(<<"CASE", ToJson(cfg)>>))
         /\ UNCHANGED cfg
Next == Parse
Spec == Init /\ [][Next]_vars
\* the effective value is acceptable, and comes from the strongest source that gives one
Inv ==
  /\ (phase = "run") => \A o \in FromEnv :
       /\ (cfg[o].cli = <<>> /\ ~cfg[o].env.set) \/ ValidFor(o, Effective(cfg, o), Host)
       /\ cfg[o].cli # <<>> => Effective(cfg, o) = Last(cfg[o].cli)
       /\ cfg[o].cli = <<>> /\ cfg[o].env.set => Effective(cfg, o) = cfg[o].env.v
       /\ cfg[o].cli = <<>> /\ ~cfg[o].env.set => Effective(cfg, o) = Defaults[o]
  /\ phase = "run" => EffLevel(cfg) \in 0..9
  \* moving a value from the environment to the command line changes nothing
  /\ phase # "given" => \A o \in FromEnv :
       LET c2 == [cfg EXCEPT ![o] = IF cfg[o].cli = <<>> /\ cfg[o].env.set THEN [cli |-> <<cfg[o].env.v>>, env |-> No] ELSE @]
       IN /\ Usage(c2, Host) = Usage(cfg, Host)
          /\ Effective(c2, o) = Effective(cfg, o)
  \* options do not influence each other
  /\ phase # "given" => \A o, q \in FromEnv : o # q => Effective([cfg EXCEPT ![o] = [cli |-> <<>>, env |-> No]], q) = Effective(cfg, q)
  \* a usage error has a culprit
  /\ phase = "usage" => \E o \in FromEnv : Usage([x \in OptNames |-> IF x = o THEN cfg[o] ELSE [cli |-> <<>>, env |-> No]], Host)
=============================================================================

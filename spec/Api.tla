-------------------------------- MODULE Api --------------------------------
(* Judging recorded uses of the parts below the command line.  *)
EXTENDS Histories, Patcher, PolicyRules, LoaderRules, Options, ToolRules

ApiStep(tr, sys, s) ==
  IF s.op = "patcher" THEN PatcherVerdict(s)
  ELSE IF s.op = "policies" THEN PolicyVerdict(s)
  ELSE IF s.op = "ldd" THEN LddVerdict(sys, s)
  ELSE {}
ApiVerdict(tr) ==
  LET sys == SysOf(tr)
  IN IF tr.st[1].op = "config" THEN OptionsVerdict(tr, sys) ELSE
     UNION {{ToString(i) \o ":" \o x : x \in ApiStep(tr, sys, tr.st[i])} : i \in 1..Len(tr.st)}
=============================================================================

----------------------------- MODULE ToolRules -----------------------------
(* Judging commands run with given tools (s.tools: the directories of PATH).  *)
EXTENDS Report, Tools

ToolStep(tr, sys, s) ==
  IF Len(s.inw) # 1 \/ ~s.inw[1].ok THEN {}
  ELSE LET wi == s.inw[1] IN
  IF s.op = "show"
  THEN LET A == TLCEval(ShowAnalysis(wi, sys, s, tr.host)) IN Need((s.exit = 0) = (A.kind = "ok"), "report-needs-tool")
  ELSE
  LET pl == TLCEval(Plan(wi, sys, s, tr.host))
      outs == s.outw
  IN CASE pl.kind # "refuse" /\ ~Works(s.tools, pl.kind, s.patcher, s.strip) ->
            Need(s.exit # 0, "unusable-tool-accepted") \cup Need(outs = <<>> /\ s.files = <<>>, "wheel-written") \cup Untouched(s)
       [] pl.kind = "refuse" -> Need(s.exit # 0, "accepted") \cup Need(outs = <<>> /\ s.files = <<>>, "wheel-written") \cup Untouched(s)
       [] pl.kind = "copy" -> Need(s.exit = 0 /\ Len(outs) = 1, "copy-needs-tool")
       [] OTHER -> IF s.exit # 0 \/ Len(outs) # 1 THEN {"usable-tool-refused"}
                   ELSE IF ~outs[1].ok THEN {"broken-wheel"}
                   ELSE C06Wheel(pl, s, wi, outs[1]) \cup C01Wheel(pl, s, wi, outs[1]) \cup C14Wheel(pl, s, wi, outs[1], tr.host) \cup Untouched(s)
ToolsVerdict(tr, sys) == UNION {{ToString(i) \o ":" \o c : c \in ToolStep(tr, sys, tr.st[i])} : i \in 1..Len(tr.st)}
=============================================================================

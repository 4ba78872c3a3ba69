------------------------------- MODULE Tools -------------------------------
(* The programs a repair relies on: patchelf (0.14.5 or newer) and strip, found
   through PATH, a sequence of directories.

   A directory is [patchelf |-> tool, strip |-> tool] with
   tool = [k |-> "none" | "noexec" | "fails" | "works", text |-> answer to --version]  *)
EXTENDS Str

NoTool == [k |-> "none", text |-> ""]
\* the first executable file of that name
RECURSIVE Found(_, _)
Found(path, name) ==
  IF path = <<>> THEN NoTool
  ELSE LET t == Head(path)[name] IN IF t.k \in {"fails", "works"} THEN t ELSE Found(Tail(path), name)

\* ------------------------------------------------ versions
RECURSIVE LeadDigits(_)
LeadDigits(s) == IF s # "" /\ At(s, 1) \in Digits THEN At(s, 1) \o LeadDigits(Drop(s, 1)) ELSE ""
RECURSIVE Numbers(_)
\* the numbers a text such as "0.14.5.rc1" begins with
Numbers(s) ==
  LET d == LeadDigits(s) IN
  IF d = "" THEN <<>>
  ELSE LET rest == Drop(s, Len(d)) IN
       <<ToNat(d)>> \o (IF StartsWith(rest, ".") THEN Numbers(Drop(rest, 1)) ELSE <<>>)
RECURSIVE AtLeast(_, _)
AtLeast(a, b) == IF b = <<>> THEN TRUE ELSE IF a = <<>> THEN FALSE
                 ELSE Head(a) > Head(b) \/ (Head(a) = Head(b) /\ AtLeast(Tail(a), Tail(b)))
RECURSIVE LSpace(_)
LSpace(s) == IF StartsWith(s, " ") THEN LSpace(Drop(s, 1)) ELSE s
NewEnough(text) ==
  /\ StartsWith(text, "patchelf ")
  /\ AtLeast(Numbers(LSpace(Drop(text, 8))), <<0, 14, 5>>)

\* ------------------------------------------------ outcome
CanEdit(path) == LET t == Found(path, "patchelf") IN t.k = "works" /\ NewEnough(t.text)
CanStrip(path) == Found(path, "strip").k = "works"
\* what: "copy" (taken as it is), "refuse" (whatever the tools), "ok"
Works(path, what, patcher, strip) ==
  CASE what = "copy" -> TRUE
    [] what = "refuse" -> FALSE
    [] OTHER -> (patcher = "patchelf" => CanEdit(path)) /\ (strip => CanStrip(path))

\* ------------------------------------------------ the machine
\* cfg: path, what ("copy", "refuse", "plain": nothing to edit, "graft"), patcher, strip
\* ph: where the command is; dir: what is published; tmp: the copy being edited
Kind(cfg) == IF cfg.what \in {"plain", "graft"} THEN (IF cfg.what = "graft" /\ cfg.patcher = "none" THEN "refuse" ELSE "ok") ELSE cfg.what
Begin == [ph |-> "analyse", dir |-> {}, tmp |-> {}, edited |-> FALSE, stripped |-> FALSE, end |-> ""]
Stop(s, how) == [s EXCEPT !.end = how, !.tmp = {}]
Proceed(cfg, s) ==
  CASE s.ph = "analyse" -> IF cfg.what = "refuse" THEN Stop(s, "failed")
                           ELSE IF cfg.what = "copy" THEN Stop([s EXCEPT !.dir = {"input"}], "ok") ELSE [s EXCEPT !.ph = "tools"]
    [] s.ph = "tools" -> IF cfg.patcher = "patchelf" /\ ~CanEdit(cfg.path) THEN Stop(s, "failed") ELSE [s EXCEPT !.ph = "strip", !.tmp = {"wheel"}]
    [] s.ph = "strip" -> IF ~cfg.strip THEN [s EXCEPT !.ph = "edit"]
                         ELSE IF CanStrip(cfg.path) THEN [s EXCEPT !.ph = "edit", !.stripped = TRUE] ELSE Stop(s, "failed")
    [] s.ph = "edit" -> IF cfg.what = "plain" THEN [s EXCEPT !.ph = "write"]
                        ELSE IF cfg.patcher = "none" THEN Stop(s, "failed") ELSE [s EXCEPT !.ph = "write", !.edited = TRUE]
    [] OTHER -> Stop([s EXCEPT !.dir = {"result"}], "ok")
=============================================================================

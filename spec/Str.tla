-------------------------------- MODULE Str --------------------------------
(* Strings, shell patterns and POSIX paths.  TLC treats strings as sequences
   of characters for Len, \o and SubSeq. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

At(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
\* positions at which sub occurs in s
Occ(s, sub) == {i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub}
HasSub(s, sub) == Occ(s, sub) # {}

SetToSorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* split at every occurrence of the one-character separator
Split(s, sep) ==
  LET pos == SetToSorted(Occ(s, sep))
      n == Len(pos)
  IN TLCEval([k \in 1..(n + 1) |->
        SubSeq(s, IF k = 1 THEN 1 ELSE pos[k - 1] + 1,
                  IF k = n + 1 THEN Len(s) ELSE pos[k] - 1)])

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

\* first position of sub in s, 0 if absent
First(s, sub) == LET o == Occ(s, sub) IN IF o = {} THEN 0 ELSE Min(o)
Last0(s, sub) == LET o == Occ(s, sub) IN IF o = {} THEN 0 ELSE Max(o)

RECURSIVE Replace(_, _, _)
Replace(s, old, new) ==
  LET i == First(s, old) IN
  IF i = 0 THEN s ELSE Take(s, i - 1) \o new \o Replace(Drop(s, i + Len(old) - 1), old, new)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : At(s, i) \in Digits
RECURSIVE ToNat(_)
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(Take(s, Len(s) - 1)) + DigitVal[At(s, Len(s))]

\* ------------------------------------------------------- shell patterns
AllChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == First(AllChars, c)
\* codepoint order of (ASCII) strings
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF At(a, 1) = At(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
                 ELSE Ord(At(a, 1)) < Ord(At(b, 1))
SortedStrs(S) == SetToSortSeq(S, StrLess)
RECURSIVE InClass(_, _)
InClass(c, cls) ==
  IF cls = "" THEN FALSE
  ELSE IF Len(cls) >= 3 /\ At(cls, 2) = "-"
       THEN (Ord(c) >= Ord(At(cls, 1)) /\ Ord(c) <= Ord(At(cls, 3))) \/ InClass(c, Drop(cls, 3))
       ELSE c = At(cls, 1) \/ InClass(c, Drop(cls, 1))

RECURSIVE FnMatch(_, _)
FnMatch(s, pat) ==
  IF pat = "" THEN s = ""
  ELSE LET c == At(pat, 1) IN
    CASE c = "*" -> \E k \in 0..Len(s) : FnMatch(Drop(s, k), Drop(pat, 1))
      [] c = "?" -> s # "" /\ FnMatch(Drop(s, 1), Drop(pat, 1))
      [] c = "[" ->
           LET body == Drop(pat, 1)
               neg == body # "" /\ At(body, 1) = "!"
               b2 == IF neg THEN Drop(body, 1) ELSE body
               \* a "]" in first position is literal
               ends == {i \in Occ(b2, "]") : i > 1}
           IN IF ends = {} THEN s # "" /\ At(s, 1) = "[" /\ FnMatch(Drop(s, 1), body)
              ELSE LET e == Min(ends)
                       cls == Take(b2, e - 1)
                   IN s # "" /\ (InClass(At(s, 1), cls) # neg) /\ FnMatch(Drop(s, 1), Drop(b2, e))
      [] OTHER -> s # "" /\ At(s, 1) = c /\ FnMatch(Drop(s, 1), Drop(pat, 1))

\* ------------------------------------------------------- paths
Comps(p) == SelectSeq(Split(p, "/"), LAMBDA c : c # "" /\ c # ".")
RECURSIVE NormComps(_, _)
\* absolute semantics: ".." at the root stays at the root
NormComps(q, acc) ==
  IF q = <<>> THEN acc
  ELSE IF Head(q) = ".." THEN NormComps(Tail(q), IF acc = <<>> THEN acc ELSE Front(acc))
  ELSE NormComps(Tail(q), Append(acc, Head(q)))
NormPath(p) == "/" \o Join(NormComps(Comps(p), <<>>), "/")      \* p absolute
Dirname(p) == LET i == Last0(p, "/") IN IF i = 0 THEN "" ELSE IF i = 1 THEN "/" ELSE Take(p, i - 1)
Basename(p) == Drop(p, Last0(p, "/"))
PathJoin(a, b) == IF StartsWith(b, "/") THEN b ELSE IF a = "" THEN b ELSE IF EndsWith(a, "/") THEN a \o b ELSE a \o "/" \o b
\* p lies at or below dir (both normalised, absolute)
Within(p, dir) == p = dir \/ StartsWith(p, dir \o "/")

RECURSIVE CommonLen(_, _)
CommonLen(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + CommonLen(Tail(a), Tail(b))
\* os.path.relpath for normalised relative paths ("" is the current directory)
RelPath(target, start) ==
  LET a == Comps(target)
      b == Comps(start)
      k == CommonLen(a, b)
      up == [i \in 1..(Len(b) - k) |-> ".."]
      r == up \o SubSeq(a, k + 1, Len(a))
  IN IF r = <<>> THEN "." ELSE Join(r, "/")

RECURSIVE Dedupe(_)
Dedupe(q) == IF q = <<>> THEN <<>>
             ELSE LET p == Dedupe(Front(q)) IN IF Last(q) \in ToSet(p) THEN p ELSE Append(p, Last(q))
SetMap(f(_), S) == {f(x) : x \in S}
SeqMap(f(_), q) == TLCEval([i \in 1..Len(q) |-> f(q[i])])
=============================================================================
